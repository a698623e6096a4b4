#include "sym.h"
#include <cstdlib>
#include "mpi.h"
namespace vmpi { World w; struct Exited {}; inline void quit(int) { throw Exited(); } }
#define exit(x) vmpi::quit(x)
#include "pack_base.h"
#include "pack_stl.h"
#include "classdescMP.h"
#include "classdesc_epilogue.h"
#undef exit
using namespace classdesc;
#if TIER
enum {MAXP = 4, CH = 4};
#else
enum {MAXP = 3, CH = 2};
#endif
static int N, ROOT, V[4][3]; static std::string S[4]; static int done[4];
static int me() { return vmpi::w.me; }
static void data(int n, bool strings = true) { N = n; ROOT = 0; for (int i = 0; i < 4; i++) { done[i] = 0; S[i] = ""; } for (int i = 0; i < n; i++) { for (int j = 0; j < 3; j++) V[i][j] = sym<int>("v"); S[i] = strings ? sym_string("s", sym_pick("len", 0, 2)) : std::string(i, 'x'); } }
static void finished() { for (int i = 0; i < N; i++) CHECK(done[i] == 1, "every process finishes"); }
static bool atEnd(MPIbuf& b) { return b.pos() == b.size(); }
// point to point
static void sendget(int p) { if (p) { MPIbuf b; b << V[p][0] << S[p] << classdesc::send(0, p); CHECK(b.size() == 0, "sending clears the buffer"); b << V[p][1] << classdesc::isend(0, p + 10); CHECK(b.size() == 0, "sending clears the buffer"); b.wait(); }
  else { bool seen[4] = {}; MPIbuf b; for (int i = 1; i < N; i++) { int v; std::string s; b.get() >> v >> s; if (b.tag > 10) sym_fail("messages overtake each other"); int q = b.proc; CHECK(q >= 1 && q < N && !seen[q] && b.tag == q, "source and tag"); seen[q] = true; CHECK(v == V[q][0] && s == S[q] && atEnd(b), "the message as sent"); b.get(q, q + 10) >> v; CHECK(v == V[q][1] && atEnd(b) && b.proc == q && b.tag == q + 10, "the second message as sent"); } CHECK(!b.msg_waiting(), "nothing else arrives"); } done[p]++; }
ENTRY(point_to_point) { data(sym_pick("n", 2, MAXP)); vmpi::run(N, sendget, CH, false); finished(); }
ENTRY(point_to_point_lazy) { data(2); vmpi::run(N, sendget, CH, true); finished(); }
static void bytag(int p) { if (p) { MPIbuf b; b << V[p][0] << classdesc::send(0, 5); b << V[p][1] << S[p] << classdesc::send(0, 6); b.send(0, 7); } else { MPIbuf b; b << 99 << std::string("old"); for (int i = 1; i < N; i++) { int v, v2; std::string s; b.get(i, 6) >> v2 >> s; CHECK(v2 == V[i][1] && s == S[i] && atEnd(b) && b.tag == 6 && b.proc == i, "message with the tag asked for"); b.get(i, 5) >> v; CHECK(v == V[i][0] && atEnd(b), "the other message"); b.get(i, 7); CHECK(b.size() == 0 && b.tag == 7, "empty message"); } } done[p]++; }
ENTRY(by_tag) { data(sym_pick("n", 2, MAXP), false); vmpi::run(N, bytag, CH, sym<bool>("lazy")); finished(); }
static void toself(int p) { MPIbuf b; int v; b << V[p][0] << classdesc::send(p); b >> v; CHECK(v == V[p][0], "sending to oneself keeps the data"); MPIbuf c; c << V[p][1]; c.isend(p, 3); c.send_recv(p, 1); c >> v; CHECK(v == V[p][1] && atEnd(c), "sending to oneself keeps the data"); done[p]++; }
ENTRY(to_self) { data(sym_pick("n", 1, 2)); vmpi::run(N, toself, 0); finished(); }
// rings
static int ST, RT; 
static MPIbuf* B[4]; static void mk() { for (int i = 0; i < N; i++) { vmpi::w.n = N; B[i] = new MPIbuf; } } static void rm() { for (int i = 0; i < N; i++) delete B[i]; }
static void ring(int p) { MPIbuf& b = *B[p]; int l = (p + N - 1) % N, r = (p + 1) % N, v; std::string s; if (vmpi::w.stage[p] == 0) { b << V[p][0] << S[p]; b.send_recv(r, ST, l, ST); b >> v >> s; CHECK(v == V[l][0] && s == S[l] && atEnd(b) && b.proc == l && b.tag == ST, "what the neighbour sent"); b.reset(); done[p]++; }
  else { b << S[p]; b.send_recv(l, ST, r, ST); b >> s; CHECK(s == S[r] && atEnd(b), "what the other neighbour sent"); } }
ENTRY(rings) { data(sym_pick("n", 2, MAXP)); ST = sym_pick("tag", 0, 1); mk(); vmpi::run(N, ring, CH, sym<bool>("lazy"), 2); rm(); finished(); }
static void pairtags(int p) { MPIbuf b; int v; std::string s; b << V[p][0] << S[p]; b.send_recv(1 - p, p + 1, 1 - p, 2 - p); b >> v >> s; CHECK(v == V[1 - p][0] && s == S[1 - p] && atEnd(b) && b.proc == 1 - p && b.tag == 2 - p, "exchange with different tags"); done[p]++; }
ENTRY(exchange_tags) { data(2); vmpi::run(N, pairtags, CH, sym<bool>("lazy")); finished(); }
// processes 1.. exchange with 0 using any source
static void anysrc(int p) { MPIbuf b; int v; std::string s; if (p == 0) { b << V[0][0]; b.send_recv(1, 1); int q = b.proc; b >> v >> s; CHECK(v == V[q][0] && s == S[q] && atEnd(b), "message from any source"); for (int i = 2; i < N; i++) { b.get(); q = b.proc; b >> v >> s; CHECK(v == V[q][0] && s == S[q] && atEnd(b), "message from any source"); } } else { b << V[p][0] << S[p] << classdesc::send(0, 1); if (p == 1) { b.get(0) >> v; CHECK(v == V[0][0] && atEnd(b), "the message to the partner"); } } done[p]++; }
ENTRY(any_source) { data(sym_pick("n", 2, 3)); vmpi::run(N, anysrc, CH, sym<bool>("lazy")); finished(); }
// collectives
static bool CB;
static void bc(int p) { MPIbuf b; b.const_buffer = CB; if (p == ROOT) b << V[p][0] << S[p]; else if (CB) b << 7 << std::string(S[ROOT].size(), '?'); else if (p == 1) b << std::string("something longer to be replaced"); int v; std::string s; b << classdesc::bcast(ROOT); b >> v >> s; CHECK(v == V[ROOT][0] && s == S[ROOT] && atEnd(b), "everyone gets what the root sent"); b.reset(); if (p == ROOT || CB) b << V[p][1]; b.bcast(ROOT) >> v; CHECK(v == V[ROOT][1] && atEnd(b), "a second broadcast"); done[p]++; }
ENTRY(broadcast) { data(sym_pick("n", 1, MAXP), false); ROOT = sym_pick("root", 0, N - 1); S[ROOT] = sym_string("t", sym_pick("len", 0, 2)); CB = sym<bool>("const"); vmpi::run(N, bc, CH); finished(); }
static void gat(int p) { MPIbuf b; b.const_buffer = CB; int v; std::string s; for (int k = 0; k < 2; k++) { b.reset(); b << V[p][k]; if (!CB) b << S[p]; b.gather(ROOT); if (p == ROOT) { for (int i = 0; i < N; i++) { b >> v; CHECK(v == V[i][k], "each process's part, in order"); if (!CB) { b >> s; CHECK(s == S[i], "each process's part, in order"); } } CHECK(atEnd(b), "nothing else"); } else CHECK(b.size() == 0, "the others' buffers are cleared"); } done[p]++; }
ENTRY(gathering) { data(sym_pick("n", 1, MAXP)); ROOT = sym_pick("root", 0, N - 1); CB = sym<bool>("const"); vmpi::run(N, gat, 1); finished(); }
static void emptygat(int p) { MPIbuf b; if (p == 1) b << V[p][0]; b.gather(0); if (!p) { int v; CHECK(b.size() == 4, "only one part"); b >> v; CHECK(v == V[1][0], "the part"); } done[p]++; }
ENTRY(gather_empty) { data(sym_pick("n", 2, MAXP), false); vmpi::run(N, emptygat, 1); finished(); }
static void sca(int p) { MPIbuf b; int v; std::string s; for (int k = 0; k < 2; k++) { b.reset(); if (p == ROOT) for (int i = 0; i < N; i++) { b << V[i][k]; if (i != 1) b << S[i]; b << classdesc::mark(); } else b << std::string("old"); b.scatter(ROOT) >> v; CHECK(v == V[p][k], "each process gets its part"); if (p != 1) { b >> s; CHECK(s == S[p], "each process gets its part"); } CHECK(atEnd(b), "nothing else"); } done[p]++; }
ENTRY(scattering) { data(sym_pick("n", 1, MAXP)); ROOT = sym_pick("root", 0, N - 1); vmpi::run(N, sca, 1); finished(); }
static void scatread(int p) { MPIbuf b; int v; b << 5 << 6; b >> v; b.reseti(); if (p == 0) { for (int i = 0; i < N; i++) { if (i) b << V[i][0] << V[i][1]; b << classdesc::mark(); } } b.scatter(0); if (p == 0) CHECK(b.size() == 0, "an empty part"); else { int x; b >> v >> x; CHECK(v == V[p][0] && x == V[p][1] && atEnd(b), "the part is read from its start"); } done[p]++; }
ENTRY(scatter_reread) { data(sym_pick("n", 2, MAXP), false); vmpi::run(N, scatread, 1); finished(); }
// copies, arrays
static void cpy(int p) { MPIbuf a; a << V[0][0] << S[0] << classdesc::mark() << V[0][1]; MPIbuf b(a), c; c << std::string("previous") << 4; c = a; MPIbuf& same = a; a = same; a << 77; int v, x; std::string s; b >> v >> s >> x; CHECK(v == V[0][0] && s == S[0] && x == V[0][1] && atEnd(b), "a copy holds the same"); c >> v >> s >> x; CHECK(v == V[0][0] && s == S[0] && x == V[0][1] && atEnd(c), "assignment replaces"); int y; a >> v >> s >> x >> y; CHECK(v == V[0][0] && s == S[0] && x == V[0][1] && y == 77 && atEnd(a), "the original is intact"); const MPIbuf d; MPIbuf e(d); CHECK(!e.const_buffer && e.size() == 0 && e.Communicator == d.Communicator, "copies have the same settings"); done[p]++; }
ENTRY(copies) { data(1); vmpi::run(1, cpy, 0); finished(); }
static void cpyscat(int p) { MPIbuf a; if (!p) for (int i = 0; i < N; i++) a << V[i][0] << classdesc::mark(); MPIbuf b(a), c; if (!p) c << 3 << classdesc::mark(); c = b; int v; c.scatter(0) >> v; CHECK(v == V[p][0] && atEnd(c), "marks are copied"); done[p]++; }
ENTRY(copy_scatter) { data(2, false); vmpi::run(2, cpyscat, 0); finished(); }
static void assigned(int p) { if (p) { MPIbuf b, c; b << V[p][0] << classdesc::isend(0, 3); c << V[p][1]; b = c; int v; b >> v; CHECK(v == V[p][1] && atEnd(b), "assignment replaces"); } else for (int i = 1; i < N; i++) { MPIbuf b; int v; b.get() >> v; CHECK(v == V[b.proc][0] && atEnd(b), "what was sent before is not affected by assignment"); } done[p]++; }
ENTRY(assign_while_sending) { data(sym_pick("n", 2, 3), false); vmpi::run(N, assigned, CH, sym<bool>("lazy")); finished(); }
static int HOW;
static void all2all(int p) { { MPIbuf_array out(N); for (int i = 0; i < N; i++) if (i != p) out[i] << V[p][0] + i << S[p] << classdesc::isend(i, 3);
    bool got[4] = {}; for (int i = 0; i < N - 1; i++) { MPIbuf b; b.get(MPI_ANY_SOURCE, 3); int v; std::string s; b >> v >> s; CHECK(b.proc != p && !got[b.proc], "one message from each"); got[b.proc] = true; CHECK(v == V[b.proc][0] + p && s == S[b.proc] && atEnd(b), "what the process sent"); }
    bool fin[4] = {}; int nf = 0;
    switch (HOW) { case 0: break; case 1: out.waitall(); for (int i = 0; i < N; i++) CHECK(out[i].sent(), "all sent"); break; case 2: for (int i = 0; i < 2 && !out.testall(); i++); break;
      case 3: for (int i = 0; i < N - 1; i++) { int k = out.waitany(); CHECK(k >= 0 && k < N && k != p && !fin[k], "each completes once"); fin[k] = true; CHECK(out[k].sent(), "the one that completed has been sent"); } CHECK(out.waitany() == MPI_UNDEFINED, "nothing outstanding"); break;
      case 4: for (int i = 0; i < N - 1; i++) { int k = out.testany(); if (k == MPI_UNDEFINED) continue; CHECK(k >= 0 && k < N && k != p && !fin[k], "each completes once"); fin[k] = true; } break;
      case 5: case 6: for (int i = 0; i < N; i++) { std::vector<int> k = HOW == 5 ? out.waitsome() : out.testsome(); if (HOW == 5 && i == 0 && N > 1) CHECK(k.size() > 0, "waiting completes something"); for (size_t j = 0; j < k.size(); j++) { CHECK(k[j] >= 0 && k[j] < N && k[j] != p && !fin[k[j]], "each completes once"); fin[k[j]] = true; nf++; } } if (HOW == 5) CHECK(nf == N - 1 && out.waitsome().empty(), "all complete"); break; } }
  done[p]++; }
ENTRY(all_to_all) { data(sym_pick("n", 1, 3), false); HOW = sym_pick("how", 0, 6); vmpi::run(N, all2all, CH, sym<bool>("lazy")); finished(); } //@@ fix:how=0..6
// other communicators
static void comms(int p) { MPIbuf a, b; b.Communicator = 1; int v; if (vmpi::w.stage[p] == 0) { if (p) { a << V[1][0] << classdesc::send(0, 2); b << V[1][1] << classdesc::send(0, 2); } else { b.get(1, 2) >> v; CHECK(v == V[1][1], "message of the communicator asked for"); CHECK(!b.msg_waiting() && a.msg_waiting() && a.msg_waiting(1, 2) && !a.msg_waiting(0) && !a.msg_waiting(1, 3), "messages waiting"); a.get() >> v; CHECK(v == V[1][0], "message of the default communicator"); } return; }
  if (!p) b << V[0][0]; b.bcast(0) >> v; CHECK(v == V[0][0], "broadcast in it"); b.reset(); b << V[p][2]; b.gather(1); if (p) { b >> v; CHECK(v == V[0][2], "gathered in it"); } MPIbuf c(b); CHECK(c.Communicator == 1, "kept by copies"); done[p]++; }
ENTRY(communicators) { data(2, false); vmpi::run(N, comms, 1, false, 2); finished(); }
// master and slaves
struct Worker { int calls; static int total, sum; static std::string text; Worker(): calls(0) {} void add(MPIbuf& b) { int x; std::string s; b >> x >> s; CHECK(atEnd(b), "exactly the arguments arrive"); total++; b.reset() << x + 1 << s + "!"; } void quiet(MPIbuf& b) { int x; b >> x; CHECK(atEnd(b), "exactly the arguments arrive"); sum ^= x; total++; calls++; } void count(MPIbuf& b) { calls++; total++; b.reset() << calls; } };
int Worker::total, Worker::sum; std::string Worker::text;
static void serve(int p) { try { MPIslave<Worker> s; sym_fail("a slave does not return"); } catch (vmpi::Exited&) { done[p]++; } catch (vmpi::Blocked&) { done[p] += 10; } }
static void quiets(int p) { if (p) { serve(p); return; } { MPIslave<Worker> m; CHECK(m.all_idle() && (int)m.idle.size() == N - 1, "all slaves are idle at first"); for (int i = 1; i < N; i++) for (int k = 0; k < 2; k++) m << &Worker::quiet << V[i][k] << classdesc::send(i); } done[p]++; }
ENTRY(requests) { data(sym_pick("n", 1, MAXP), false); Worker::total = Worker::sum = 0; vmpi::run(N, quiets, 0); int x = 0; for (int i = 1; i < N; i++) x ^= V[i][0] ^ V[i][1]; CHECK(Worker::total == 2 * (N - 1) && Worker::sum == x, "every request is executed once, with its arguments"); finished(); }
static void execs(int p) { if (p) { serve(p); return; } { MPIslave<Worker> m; bool got[4] = {}; for (int i = 1; i < N; i++) { size_t before = m.idle.size(); m.exec(m << &Worker::add << V[i][0] << S[i]); CHECK(m.idle.size() == before - 1, "a slave with work is not idle"); } CHECK(N == 1 || !m.all_idle(), "not all are idle");
    for (int i = 1; i < N; i++) { int v; std::string s; m.get_returnv() >> v >> s; CHECK((int)m.idle.size() == i && m.idle.back() == m.proc, "the slave that answered is idle again"); int who = 0; for (int j = 1; j < N; j++) if (!got[j] && v == V[j][0] + 1 && s == S[j] + "!") { who = j; break; } CHECK(who && atEnd(m), "the answer to one of the requests"); got[who] = true; } CHECK(m.all_idle(), "all are idle"); for (size_t i = 0; i < m.idle.size(); i++) for (size_t j = 0; j < i; j++) CHECK(m.idle[i] != m.idle[j], "each slave is listed once"); m.wait_all_idle(); } done[p]++; 
  int ends = 0; for (size_t i = 0; i < vmpi::w.mail.size(); i++) if (vmpi::w.mail[i].src == 0 && vmpi::w.mail[i].tag == 1) { ends++; vmpi::w.mail[i].taken = true; } CHECK(ends == N - 1, "every slave is told to stop"); }
ENTRY(answers) { data(sym_pick("n", 1, MAXP), false); for (int i = 1; i < N; i++) S[i] = sym_string("t", 1); Worker::total = 0; vmpi::run(N, execs, CH, false, 1, false); CHECK(Worker::total == N - 1, "every request is executed once"); for (int i = 1; i < N; i++) CHECK(done[i] == 10, "slaves wait for more"); }
static void wait_idle(int p) { if (p) { serve(p); return; } { MPIslave<Worker> m; for (int i = 1; i < N; i++) m.exec(m << &Worker::count); m.wait_all_idle(); CHECK(m.all_idle() && Worker::total == N - 1, "all work is done"); } done[p]++; for (size_t i = 0; i < vmpi::w.mail.size(); i++) if (vmpi::w.mail[i].tag == 1) vmpi::w.mail[i].taken = true; }
ENTRY(wait_for_all) { data(sym_pick("n", 1, MAXP), false); Worker::total = 0; vmpi::run(N, wait_idle, CH, false, 1, false); }
static bool OWN;
static void bcasts(int p) { if (p) { serve(p); return; } { MPIslave<Worker> m; if (OWN) m.bcast(m << &Worker::quiet << V[0][0]); else { MPIbuf c; void (Worker::*f)(MPIbuf&) = &Worker::quiet; pack(c, string(), f); c << V[0][0]; m.bcast(c); CHECK(c.size() == 0, "the buffer is cleared"); } for (int i = 1; i < N; i++) m << &Worker::quiet << V[i][0] << classdesc::send(i); } done[p]++; }
ENTRY(slave_broadcast) { data(sym_pick("n", 1, MAXP), false); OWN = sym<bool>("own"); Worker::total = Worker::sum = 0; vmpi::run(N, bcasts, 0); int x = (N - 1) % 2 ? V[0][0] : 0; for (int i = 1; i < N; i++) x ^= V[i][0]; CHECK(Worker::total == 2 * (N - 1) && Worker::sum == x, "every slave executes the request once"); finished(); }
static void plainmsg(int p) { if (p) { MPIbuf b; int v; b.get(0, 5) >> v; CHECK(v == V[0][0] && atEnd(b), "a message composed on the manager"); b.get(0, 1); done[p]++; return; } { MPIslave<Worker> m; m << V[0][1]; m << V[0][0] << classdesc::send(1, 5); } done[p]++; }
ENTRY(plain_message) { data(2, false); vmpi::run(2, plainmsg, 0); finished(); }
static void spmd(int p) { int c = 1; char name[] = "x", *av[] = {name, 0}, **a = av; MPISPMD e(c, a); CHECK(e.nprocs == N && e.myid == p, "number and identity of processes"); MPIbuf b; CHECK(b.nprocs() == (unsigned)N && b.myid() == (unsigned)p, "number and identity of processes"); done[p]++; }
ENTRY(identity) { data(sym_pick("n", 1, MAXP), false); vmpi::run(N, spmd, 0); finished(); }
