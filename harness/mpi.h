// A message passing library for the harnesses: the processes are run one inside another on one thread.  A call that has to wait
// runs another process that has not started yet; which one, and which of several waiting messages arrives, are arbitrary choices.
#ifndef VMPI_H
#define VMPI_H
#include <vector>
#include <string>
#include <string.h>
#include "sym.h"
#define MPI_VERSION 3
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count; };
#define MPI_COMM_WORLD 0
#define MPI_CHAR 1
#define MPI_INT 4
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_REQUEST_NULL (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
namespace vmpi {
  struct Msg { int src, dst, tag, comm, n; const void* live; std::string data; bool taken, done; };
  struct Coll { int kind, root, comm; std::vector<int> there; std::vector<std::string> data; };
  struct Waiting { int who, src, tag, comm, coll; };
  struct World { int n, me, finalized, choices, arrivals, stages; std::vector<Msg> mail; std::vector<int> stage, busy; std::vector<Coll> colls; std::vector<int> at; std::vector<Waiting> waiting; bool lazy; void (*prog)(int); };
  extern World w;
  struct Blocked {};
  inline bool can(const Waiting& x) { if (x.coll >= 0) return w.colls[x.coll].there[x.src]; for (size_t i = 0; i < w.mail.size(); i++) { Msg& m = w.mail[i]; if (!m.taken && (x.src == MPI_ANY_SOURCE || x.src == m.src) && m.dst == x.who && m.comm == x.comm && (x.tag == MPI_ANY_TAG || m.tag == x.tag)) return true; } return false; }
  // runs the next stage of a process that is not in the middle of one
  inline bool start_another(bool choose = true) {
    std::vector<int> c; for (int i = 0; i < w.n; i++) if (!w.busy[i] && w.stage[i] < w.stages) c.push_back(i);
    if (c.empty() || !w.prog) return false;
    int k = c[choose && c.size() > 1 && w.choices ? (w.choices--, sym_pick("next", 0, c.size() - 1)) : 0], was = w.me; w.busy[k] = 1; w.me = k; w.prog(k); w.me = was; w.busy[k] = 0; w.stage[k]++; return true; }
  inline void block(int src, int tag, int comm, int coll) { Waiting x = {w.me, src, tag, comm, coll}; w.waiting.push_back(x); bool r = start_another(); w.waiting.pop_back(); if (r) return; for (size_t i = 0; i < w.waiting.size(); i++) if (can(w.waiting[i])) sym_done(); /* another process can go on: an order that running one inside another cannot express */ throw Blocked(); }
  inline void run(int n, void (*prog)(int), int choices = 2, bool lazy = false, int stages = 1, bool any_first = true) { w = World(); w.n = n; w.prog = prog; w.choices = w.arrivals = choices; w.lazy = lazy; w.stages = stages; w.stage.assign(n, 0); w.busy.assign(n, 0); w.at.assign(n, 0); try { if (start_another(any_first)) while (start_another()); } catch (Blocked&) { sym_fail("a process waits for a message that is never sent"); } for (size_t i = 0; i < w.mail.size(); i++) CHECK(w.mail[i].taken, "every message sent is received"); }
  inline void fix(Msg& m) { if (m.live) { m.data.assign((const char*)m.live, m.n); m.live = 0; } }
  inline int find(int src, int tag, int comm) {
    std::vector<int> c; for (int s = 0; s < w.n; s++) if (src == MPI_ANY_SOURCE || src == s) for (size_t i = 0; i < w.mail.size(); i++) { Msg& m = w.mail[i]; if (!m.taken && m.src == s && m.dst == w.me && m.comm == comm && (tag == MPI_ANY_TAG || m.tag == tag)) { c.push_back(i); break; } }
    if (c.empty()) return -1; return c[c.size() > 1 && w.arrivals ? (w.arrivals--, sym_pick("arrives", 0, c.size() - 1)) : 0]; }
  inline int await(int src, int tag, int comm) { for (;;) { int i = find(src, tag, comm); if (i >= 0) return i; block(src, tag, comm, -1); } }
  inline void status(MPI_Status* s, const Msg& m) { if (s) { s->MPI_SOURCE = m.src; s->MPI_TAG = m.tag; s->count = m.n; s->MPI_ERROR = 0; } }
  inline Coll& coll(int kind, int root, int comm) { size_t k = w.at[w.me]++; if (k == w.colls.size()) { Coll c; c.kind = kind; c.root = root; c.comm = comm; c.there.assign(w.n, 0); c.data.resize(w.n); w.colls.push_back(c); } Coll& c = w.colls[k]; CHECK(c.kind == kind && c.root == root && c.comm == comm, "all processes take part in the same collective operation"); return c; }
  inline void await(size_t k, int who) { while (!w.colls[k].there[who]) block(who, 0, 0, k); }
}
inline int MPI_Initialized(int* f) { *f = 1; return 0; }
inline int MPI_Finalized(int* f) { *f = vmpi::w.finalized; return 0; }
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Finalize() { vmpi::w.finalized += 0; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = vmpi::w.me; return 0; }
inline int MPI_Comm_size(MPI_Comm, int* r) { *r = vmpi::w.n; return 0; }
inline int MPI_Barrier(MPI_Comm) { return 0; }
inline int MPI_Isend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) { CHECK(n >= 0 && dst >= 0 && dst < vmpi::w.n && tag >= 0, "valid message"); vmpi::Msg m; m.src = vmpi::w.me; m.dst = dst; m.tag = tag; m.comm = c; m.n = n * t; m.live = p; m.taken = m.done = false; if (!vmpi::w.lazy || !m.n) { if (m.n) vmpi::fix(m); m.live = 0; } *r = vmpi::w.mail.size(); vmpi::w.mail.push_back(m); return 0; }
inline int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { MPI_Request r; MPI_Isend(p, n, t, dst, tag, c, &r); vmpi::fix(vmpi::w.mail[r]); vmpi::w.mail[r].done = true; return 0; }
inline vmpi::Msg& vmpi_req(int r) { vmpi::Msg& m = vmpi::w.mail[r]; CHECK(!m.done, "a request that has completed is not used again"); return m; }
inline int MPI_Wait(MPI_Request* r, MPI_Status* s) { if (*r >= 0) { vmpi::Msg& m = vmpi_req(*r); vmpi::fix(m); m.done = true; *r = MPI_REQUEST_NULL; } if (s) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->count = 0; } return 0; }
inline int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) { *f = 1; if (*r >= 0 && vmpi_req(*r).live && vmpi::w.choices) { vmpi::w.choices--; *f = sym_pick("sent", 0, 1); } if (*f) MPI_Wait(r, s); return 0; }
inline int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* s) { vmpi::status(s, vmpi::w.mail[vmpi::await(src, tag, c)]); return 0; }
inline int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* s) { int i = vmpi::find(src, tag, c); *f = i >= 0; if (*f) vmpi::status(s, vmpi::w.mail[i]); return 0; }
inline int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->count / t; return 0; }
inline int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s) { vmpi::Msg& m = vmpi::w.mail[vmpi::await(src, tag, c)]; CHECK(m.n <= n * t, "a message fits where it is received"); vmpi::fix(m); m.taken = true; if (m.n) memcpy(p, m.data.data(), m.n); vmpi::status(s, m); return 0; }
inline int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c) { vmpi::coll(1, root, c); size_t k = vmpi::w.at[vmpi::w.me] - 1; if (vmpi::w.me == root) { vmpi::w.colls[k].data[root].assign((const char*)p, n ? n * t : 0); vmpi::w.colls[k].there[root] = 1; } else { vmpi::await(k, root); const std::string& d = vmpi::w.colls[k].data[root]; CHECK(d.size() == (size_t)n * t, "sender and receivers of a broadcast agree on its size"); if (n) memcpy(p, d.data(), n * t); } return 0; }
inline int vmpi_gather(const void* p, int n, MPI_Datatype t, void* q, const int* sizes, const int* offs, int size, int root, MPI_Comm c, int kind) { vmpi::coll(kind, root, c); size_t k = vmpi::w.at[vmpi::w.me] - 1; int me = vmpi::w.me; if (n) vmpi::w.colls[k].data[me].assign((const char*)p, n * t); vmpi::w.colls[k].there[me] = 1; if (me == root) for (int i = 0; i < vmpi::w.n; i++) { vmpi::await(k, i); const std::string& d = vmpi::w.colls[k].data[i]; CHECK(d.size() == (size_t)(sizes ? sizes[i] : size) * t, "the sizes gathered are the ones sent"); if (d.size()) memcpy((char*)q + (offs ? offs[i] * t : i * size * t), d.data(), d.size()); } return 0; }
inline int MPI_Gather(const void* p, int n, MPI_Datatype t, void* q, int m, MPI_Datatype, int root, MPI_Comm c) { return vmpi_gather(p, n, t, q, 0, 0, m, root, c, 2); }
inline int MPI_Gatherv(const void* p, int n, MPI_Datatype t, void* q, const int* sizes, const int* offs, MPI_Datatype, int root, MPI_Comm c) { return vmpi_gather(p, n, t, q, sizes, offs, 0, root, c, 3); }
inline int vmpi_scatter(const void* p, const int* sizes, const int* offs, int size, MPI_Datatype t, void* q, int n, int root, MPI_Comm c, int kind) { vmpi::coll(kind, root, c); size_t k = vmpi::w.at[vmpi::w.me] - 1; int me = vmpi::w.me; if (me == root) { for (int i = 0; i < vmpi::w.n; i++) { int z = (sizes ? sizes[i] : size) * t; CHECK(z >= 0, "no negative sizes"); if (z) vmpi::w.colls[k].data[i].assign((const char*)p + (offs ? offs[i] * t : i * size * t), z); } vmpi::w.colls[k].there[root] = 1; } else vmpi::await(k, root); const std::string& d = vmpi::w.colls[k].data[me]; CHECK(d.size() == (size_t)n * t, "sender and receivers agree on the sizes scattered"); if (n) memcpy(q, d.data(), n * t); return 0; }
inline int MPI_Scatter(const void* p, int m, MPI_Datatype t, void* q, int n, MPI_Datatype, int root, MPI_Comm c) { return vmpi_scatter(p, 0, 0, m, t, q, n, root, c, 4); }
inline int MPI_Scatterv(const void* p, const int* sizes, const int* offs, MPI_Datatype t, void* q, int n, MPI_Datatype, int root, MPI_Comm c) { return vmpi_scatter(p, sizes, offs, 0, t, q, n, root, c, 5); }
inline int vmpi_some(int n, MPI_Request* r, std::vector<int>& done, bool wait) { std::vector<int> live; for (int i = 0; i < n; i++) if (r[i] >= 0) live.push_back(i); for (size_t j = 0; j < live.size(); j++) { bool d = true; if (vmpi_req(r[live[j]]).live && vmpi::w.choices) { vmpi::w.choices--; d = sym_pick("done", 0, 1); } if (wait && j + 1 == live.size() && done.empty()) d = true; if (d) { MPI_Wait(&r[live[j]], 0); done.push_back(live[j]); } } return live.size(); }
inline int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status*) { *f = 1; for (int i = 0; i < n; i++) if (r[i] >= 0 && vmpi_req(r[i]).live && vmpi::w.choices) { vmpi::w.choices--; if (sym_pick("notyet", 0, 1)) *f = 0; } if (*f) for (int i = 0; i < n; i++) MPI_Wait(&r[i], 0); return 0; }
inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status*) { for (int i = 0; i < n; i++) MPI_Wait(&r[i], 0); return 0; }
inline int vmpi_any(int n, MPI_Request* r, int* ix, bool wait, int* f) { std::vector<int> live; for (int i = 0; i < n; i++) if (r[i] >= 0) live.push_back(i); *ix = MPI_UNDEFINED; if (f) *f = live.empty(); if (live.empty()) return 0; unsigned k = live.size(); if (vmpi::w.choices) { vmpi::w.choices--; k = sym_pick("any", 0, live.size() - (wait ? 1 : 0)); } else k = 0; if (k < live.size()) { MPI_Wait(&r[live[k]], 0); *ix = live[k]; if (f) *f = 1; } return 0; }
inline int MPI_Testany(int n, MPI_Request* r, int* ix, int* f, MPI_Status*) { return vmpi_any(n, r, ix, false, f); }
inline int MPI_Waitany(int n, MPI_Request* r, int* ix, MPI_Status*) { return vmpi_any(n, r, ix, true, 0); }
inline int MPI_Testsome(int n, MPI_Request* r, int* cnt, int* ix, MPI_Status*) { std::vector<int> d; int l = vmpi_some(n, r, d, false); *cnt = l ? (int)d.size() : MPI_UNDEFINED; for (size_t i = 0; i < d.size(); i++) ix[i] = d[i]; return 0; }
inline int MPI_Waitsome(int n, MPI_Request* r, int* cnt, int* ix, MPI_Status*) { std::vector<int> d; int l = vmpi_some(n, r, d, true); *cnt = l ? (int)d.size() : MPI_UNDEFINED; for (size_t i = 0; i < d.size(); i++) ix[i] = d[i]; return 0; }
#endif
