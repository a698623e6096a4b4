// C20: the text dump shows every member once, in order, with its name and value
//@ std: c++98
//@ cd: dump pack
//@ gen: vdump.h -> vdump.cd : -nodef -onbase -i $SRC dump
//@ bounds: signed and unsigned integers of 16 bits (as every integer type), all characters, strings of up to 2 characters, containers of up to 2 elements (and some of 12), nested to depth 3, arrays of up to 5 dimensions
//@ assume: what is compared is the sequence of names and values; the white space and braces between them are layout
#include "sym.h"
#include "dump_base.h"
#include "vdump.h"
#include "vdump.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vd;
static std::string num(long v) { bool neg = v < 0; unsigned long u = neg ? 0UL - (unsigned long)v : v; char b[24]; int n = 24; do { b[--n] = '0' + u % 10; u /= 10; } while (u); if (neg) b[--n] = '-'; return std::string(b + n, 24 - n); }
static std::string unum(unsigned long u) { char b[24]; int n = 24; do { b[--n] = '0' + u % 10; u /= 10; } while (u); return std::string(b + n, 24 - n); }
// the sequence of names and values: runs of space, newline and braces separate them
static std::string words(const std::string& s) { std::string r; bool gap = false; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == ' ' || c == '\n' || c == '{' || c == '}') gap = true; else { if (gap && !r.empty()) r += ' '; gap = false; r += c; } } return r; }
struct X { std::string s; X& w(const std::string& x) { if (!s.empty()) s += ' '; s += x; return *this; } X& n(const char* a, long v) { return w(std::string(a) + ":" + num(v)); } X& t(const std::string& a, const std::string& v) { return w(std::string(a) + ":" + v); } X& h(const std::string& a) { return w(a + ":"); } };
template <class T> static std::string text(T& x, const char* name) { std::ostringstream o; dump(o, name, x); return o.str(); }
static unsigned lines(const std::string& s) { unsigned n = 0; for (size_t i = 0; i < s.size(); i++) n += s[i] == '\n'; return n; }
template <class T> static void same(T& x, const char* name, const X& e) { std::string s = text(x, name); CHECK(words(s) == e.s, "names and values in order"); CHECK(!s.empty() && s[s.size() - 1] == '\n', "ends with a line end"); int d = 0; bool ok = true; for (size_t i = 0; i < s.size(); i++) { d += s[i] == '{'; d -= s[i] == '}'; ok = ok && d >= 0; } CHECK(ok && d == 0, "braces balance"); }
static char printable(const char* n) { char c = sym<char>(n); sym_assume(c != ' ' && c != '\n' && c != '{' && c != '}'); return c; }
static std::string str(const char* n, unsigned max = 2) { std::string s(sym_pick("len", 0, max), ' '); for (size_t i = 0; i < s.size(); i++) s[i] = printable(n); return s; }
static int digit(const char* n) { return sym_range(n, 0, 9); }
ENTRY(basic) { Basic b = Basic(); unsigned short u = sym<unsigned short>("u"); short s = short(u); unsigned k = sym_pick("k", 0, 6); b.i = k == 0 ? s : -1; b.u = k == 1 ? u : 4294967295u; b.s = k == 2 ? s : -32768; b.us = k == 3 ? u : 65535; b.l = k == 4 ? s : -2147483648L - 1; b.ul = k == 5 ? u : ~0UL; b.ll = k == 6 ? s : (-1LL << 63); b.c = printable("c"); b.q = sym<bool>("q"); b.t = "ab"; b.e = sym<bool>("e") ? ea : eb;
  X x; x.h("b").n("i", b.i).n("u", b.u).n("s", b.s).n("us", b.us).n("l", b.l).w("ul:" + unum(b.ul)).n("ll", b.ll).t("c", std::string(1, b.c)).n("q", b.q).t("t", b.t).h("e").n("e", b.e); same(b, "b", x); } //@@ fix:k=0..6
ENTRY(strings) { Basic b = Basic(); b.c = 'x'; b.t = str("s"); b.e = ea; X x; x.h("b").n("i", 0).n("u", 0).n("s", 0).n("us", 0).n("l", 0).n("ul", 0).n("ll", 0).t("c", "x").n("q", 0).t("t", b.t).h("e").n("e", 3); same(b, "b", x); }
ENTRY(derived) { Derived d; d.b = digit("b"); d.c2 = printable("c"); d.own = digit("o"); d.in.x = digit("x"); d.in.y = digit("y"); d.last = digit("l"); X x; x.h("d").h("d").n("b", d.b).h("d").t("c2", std::string(1, d.c2)).n("own", d.own).h("in").n("x", d.in.x).n("y", d.in.y).n("last", d.last); same(d, "d", x); }
ENTRY(arrays) { Arrays a; X x; x.h("a"); std::string t = "a:"; for (int i = 0; i < 3; i++) { a.a[i] = digit("a"); t += ' ' + num(a.a[i]); } x.w(t); t = "m:"; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { a.m[i][j] = digit("m"); t += ' ' + num(a.m[i][j]); } x.w(t).h("ai"); for (int i = 0; i < 2; i++) { a.ai[i].x = digit("x"); a.ai[i].y = -digit("y"); x.h("ai[" + num(i) + "]").n("x", a.ai[i].x).n("y", a.ai[i].y); } x.h("ae"); for (int i = 0; i < 2; i++) { a.ae[i] = sym<bool>("e") ? ea : eb; x.h("ae[" + num(i) + "]").n(i ? "ae[1]" : "ae[0]", a.ae[i]); } x.h("as"); for (int i = 0; i < 2; i++) { a.as[i] = std::string(1, printable("s")); x.t(i ? "as[1]" : "as[0]", a.as[i]); } a.mark = 42; x.n("mark", 42); same(a, "a", x); }
ENTRY(sequences) { Seqs q; X x; x.h("q"); std::string t = "v:"; unsigned which = sym_pick("which", 0, 5), n = sym_pick("n", 0, 2); unsigned k = which == 0 ? n : 0; for (unsigned i = 0; i < k; i++) { int v = digit("v"); q.v.push_back(v); t += ' ' + num(v); } x.w(t); t = "l:"; k = which == 1 ? n : 1; for (unsigned i = 0; i < k; i++) { short v = digit("l"); q.l.push_back(v); t += ' ' + num(v); } x.w(t).h("d"); k = which == 2 ? n : 0; for (unsigned i = 0; i < k; i++) { In v = {digit("x"), short(digit("y"))}; q.d.push_back(v); x.h("d[" + num(i) + "]").n("x", v.x).n("y", v.y); } x.h("vs"); k = which == 3 ? n : 1; for (unsigned i = 0; i < k; i++) { q.vs.push_back(std::string(1, printable("s"))); x.t(i ? "vs[1]" : "vs[0]", q.vs.back()); } x.h("vv"); k = which == 4 ? n : 0; for (unsigned i = 0; i < k; i++) { q.vv.push_back(std::vector<int>()); t = "vv[" + num(i) + "]:"; for (unsigned j = 0; j < 2 - i; j++) { int v = digit("vv"); q.vv[i].push_back(v); t += ' ' + num(v); } x.w(t); } t = "st:"; k = which == 5 ? n : 0; int st[2]; for (unsigned i = 0; i < k; i++) { st[i] = i ? sym_range("st", 5, 9) : sym_range("st", 0, 4); } for (unsigned i = k; i > 0; i--) q.st.insert(st[i - 1]); for (unsigned i = 0; i < k; i++) t += ' ' + num(st[i]); x.w(t); q.mark = 42; x.n("mark", 42); same(q, "q", x); }
ENTRY(maps) { Maps m; X x; x.h("m"); unsigned which = sym_pick("which", 0, 3), n = sym_pick("n", 0, 2); std::string t; x.h("m"); unsigned k = which == 0 ? n : 0; for (unsigned i = 0; i < k; i++) { int a = i ? sym_range("k", 5, 9) : sym_range("k", 0, 4), b = digit("v"); m.m[a] = b; x.w("[" + num(a) + "]=" + num(b)); } x.h("mi"); k = which == 1 ? n : 0; for (unsigned i = 0; i < k; i++) { int a = i ? sym_range("k", 5, 9) : sym_range("k", 0, 4); In v = {digit("x"), short(digit("y"))}; m.mi[a] = v; x.w("[" + num(a) + "]=").h("mi[" + num(i) + "]").n("x", v.x).n("y", v.y); } x.h("ms"); k = which == 2 ? n : 0; for (unsigned i = 0; i < k; i++) { std::string a(1, i ? 'z' : 'k'); int v = digit("v"); m.ms[a] = v; std::string nm = "ms[" + num(i) + "]"; x.w(nm + "]=:" + a).n(nm.c_str(), v); } x.h("is"); k = which == 3 ? n : 1; for (unsigned i = 0; i < k; i++) { int a = i ? sym_range("k", 5, 9) : sym_range("k", 0, 4); m.is[a] = std::string(1, printable("s")); x.w("[" + num(a) + "]=").t(i ? "is[1]" : "is[0]", m.is[a]); } m.mark = 42; x.n("mark", 42); same(m, "m", x); }
ENTRY(pointers) { Ptrs p; X x; x.h("p"); bool a = sym<bool>("a"), b = sym<bool>("b"), c = sym<bool>("c"); if (a) { p.p.reset(new In); p.p->x = digit("x"); p.p->y = digit("y"); x.h("p").n("x", p.p->x).n("y", p.p->y); } else x.t("p", "null"); if (b) { p.q.reset(new In); p.q->x = 3; p.q->y = digit("y"); x.h("q").n("x", 3).n("y", p.q->y); } else x.t("q", "null"); if (c) { p.n.reset(new int(digit("n"))); x.n("n", *p.n); } else x.t("n", "null"); p.mark = 42; x.n("mark", 42); same(p, "p", x); }
ENTRY(odd) { Odd o; int h = digit("h"); o.p.set(h); o.p.open = printable("c"); X x; x.h("o").n("cs", 5).h("p").n("hidden", h).t("open", std::string(1, o.p.open)).h("in"); for (int i = 0; i < 2; i++) { o.in[0][i].x = digit("x"); o.in[0][i].y = 2; x.h("in[" + num(i) + "]").n("x", o.in[0][i].x).n("y", 2); } o.mark = 42; x.n("mark", 42); o.ex = 77; same(o, "o", x); }
ENTRY(nesting) { Deep d; d.inner.a = digit("a"); d.inner.in.x = digit("x"); d.inner.in.y = digit("y"); d.ti.t = digit("t"); d.ti.v.push_back(digit("v")); d.tn.t.x = 1; d.tn.t.y = 2; In v = {digit("x"), 4}; d.tn.v.push_back(v); d.mark = 42; X x; x.h("d").h("inner").n("a", d.inner.a).h("in").n("x", d.inner.in.x).n("y", d.inner.in.y).h("ti").n("t", d.ti.t).w("v: " + num(d.ti.v[0])).h("tn").h("t").n("x", 1).n("y", 2).h("v").h("v[0]").n("x", v.x).n("y", 4).n("mark", 42); same(d, "d", x); }
ENTRY(names) { In v = {digit("x"), 4}; unsigned k = sym_pick("k", 0, 2); X x; x.h(k == 0 ? "" : "leaf").n("x", v.x).n("y", 4); same(v, k == 0 ? "" : k == 1 ? "leaf" : "a.b.leaf", x); std::string s = text(v, k == 0 ? "" : k == 1 ? "leaf" : "a.b.leaf"); CHECK(s.compare(0, k == 2 ? 8 : 0, k == 2 ? "  leaf:{" : "") == 0, "indented by depth"); CHECK(s.find(std::string(k == 2 ? 3 : 1, ' ') + "x:") != std::string::npos, "members are indented further"); }
ENTRY(untouched) { Seqs q, r; q.v.push_back(digit("v")); q.vs.push_back("a"); q.mark = 5; r = q; text(q, "q"); CHECK(q.v == r.v && q.vs == r.vs && q.mark == 5 && q.l.empty() && q.d.empty() && q.st.empty(), "what is dumped does not change"); std::string a = text(q, "q"); CHECK(a == text(q, "q"), "the same again"); std::ostringstream o; o << std::hex << std::setfill('*'); dump(o, "q", q); CHECK(o.str() == a, "the stream's own formatting does not matter"); std::ostringstream p; dump_t d(p); dump(d, "q", q); dump(d, "q", q); CHECK(p.str() == a + a, "one after the other"); }
ENTRY(many) { Many m; X x; x.h("m").h("v"); for (int i = 0; i < 12; i++) { In v = {i == 10 ? sym_range("x", 98, 101) : i, short(i)}; m.v.push_back(v); x.h("v[" + num(i) + "]").n("x", v.x).n("y", v.y); } std::string t = "n:"; for (int i = 0; i < 12; i++) { m.n.push_back(i == 3 ? sym_range("n", 8, 12) : i == 4 ? sym_range("n", -1000, -998) : 1 << 2 * i); t += ' ' + num(m.n[i]); } x.w(t); t = "r3:"; for (int i = 0; i < 6; i++) { (&m.r3[0][0][0])[i] = i == 4 ? sym_range("r", 9, 10) : i * i; t += ' ' + num((&m.r3[0][0][0])[i]); } x.w(t); t = "r4:"; for (int i = 0; i < 6; i++) { (&m.r4[0][0][0][0])[i] = i * i; t += ' ' + num(i * i); } x.w(t); t = "r5:"; for (int i = 0; i < 4; i++) { (&m.r5[0][0][0][0][0])[i] = 'a' + i; t += std::string(" ") + char('a' + i); } x.w(t).h("s"); for (int i = 0; i < 11; i++) { m.s.push_back(std::string(i % 3, 'q')); x.t("s[" + num(i) + "]", m.s[i]); } x.h("mv"); for (int i = 8; i < 13; i++) { m.mv[i].push_back(i); m.mv[i].push_back(i + 1); x.w("[" + num(i) + "]= mv[" + num(i - 8) + "]: " + num(i) + " " + num(i + 1)); } m.mark = 42; x.n("mark", 42); same(m, "m", x); }
