// C01: binary serialisation round-trips every value and consumes exactly what it wrote.
//@ std: c++98
//@ cd: pack
//@ gen: vtypes.h -> vtypes.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: fundamental/struct/array members: full width, all values; containers <=2 (quick) / <=3 (thorough) elements; strings <=3/5 chars
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "vtypes.h"
#include "vtypes.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
using namespace vt;
#if TIER
enum {NC=3, NS=5};
#else
enum {NC=2, NS=3};
#endif
template <class T> T raw(const char* n) { T x; sym_make(&x, sizeof x, n); return x; }
#define RT(TT) { typedef TT T; T x = sym<T>("v"), y = 0; const T was = x; pack_t b; b << x; CHECK(memcmp(&x, &was, sizeof(T)) == 0, "what is written is not changed"); CHECK(b.size() == sizeof(T), "a fundamental takes its size"); b >> y; CHECK(memcmp(&x, &y, sizeof(T)) == 0, "fundamental round trip"); CHECK(b.pos() == b.size(), "exact consumption"); bool thrown = false; try { b >> y; } catch (std::exception&) { thrown = true; } CHECK(thrown, "reading past the end is refused"); CHECK(memcmp(&x, &y, sizeof(T)) == 0, "a refused read leaves the target alone"); sym_observe(b.size(), "sz"); }
ENTRY(fundamentals) { RT(bool) RT(char) RT(signed char) RT(unsigned char) RT(short) RT(unsigned short) RT(int) RT(unsigned) RT(long) RT(unsigned long) RT(long long) RT(unsigned long long) RT(wchar_t) }
ENTRY(floats) { unsigned u = sym<unsigned>("f"), u2; unsigned long d = sym<unsigned long>("d"), d2; float f, f2 = 0; double g, g2 = 0; memcpy(&f, &u, 4); memcpy(&g, &d, 8); pack_t b; b << f << g; b >> f2 >> g2; memcpy(&u2, &f2, 4); memcpy(&d2, &g2, 8); CHECK(u == u2 && d == d2, "floating point bits round trip"); CHECK(b.pos() == b.size() && b.size() == 12, "exact consumption"); }
static void symInner(Inner& x) { x.a = sym<short>("in.a"); x.b = sym<unsigned char>("in.b"); x.c = sym<bool>("in.c"); }
static bool eq(const Inner& x, const Inner& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
static void symRec(Rec& r) {
  r.base1 = sym<long>("base1"); r.cb = sym<char>("cb"); r.u2 = sym<unsigned>("u2"); r.x = sym<int>("x"); int c = sym<int>("col"); memcpy(&r.col, &c, 4); symInner(r.in);
  for (int i = 0; i < 3; i++) r.arr[i] = sym<int>("arr"); for (int i = 0; i < 4; i++) (&r.m2[0][0])[i] = sym<short>("m2"); for (int i = 0; i < 4; i++) r.txt[i] = sym<char>("txt"); symInner(r.ia[0]); symInner(r.ia[1]); r.p.set(sym<int>("secret")); r.p.shown = sym<int>("shown"); r.z = sym<int>("z"); }
static void same(Rec& r, Rec& q) {
  CHECK(q.base1 == r.base1 && q.cb == r.cb, "base class members"); CHECK(q.u2 == r.u2, "second base class"); CHECK(q.x == r.x && q.z == r.z, "plain members"); CHECK(!memcmp(&q.col, &r.col, 4), "enum member"); CHECK(eq(q.in, r.in), "nested struct");
  for (int i = 0; i < 3; i++) CHECK(q.arr[i] == r.arr[i], "array member"); for (int i = 0; i < 4; i++) CHECK((&q.m2[0][0])[i] == (&r.m2[0][0])[i], "2-d array member"); CHECK(!memcmp(q.txt, r.txt, 4), "char array member"); CHECK(eq(q.ia[0], r.ia[0]) && eq(q.ia[1], r.ia[1]), "array of structs"); CHECK(q.p.get() == r.p.get() && q.p.shown == r.p.shown, "private member"); }
ENTRY(record) { Rec r, q; memset((void*)&q, 0x5a, sizeof q); memset((void*)&r, 0, sizeof r); symRec(r); pack_t b; b << r; sym_observe(b.size(), "n"); for (size_t i = 0; i < b.size(); i++) sym_observe((unsigned char)b.data()[i], "byte"); b >> q; same(r, q); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(record_repack) { Rec r, q; memset((void*)&r, 0, sizeof r); memset((void*)&q, 0, sizeof q); symRec(r); pack_t b, b2; b << r; b >> q; b2 << q; CHECK(b.size() == b2.size() && !memcmp(b.data(), b2.data(), b.size()), "repacking the copy gives the same bytes"); Rec r2; memset((void*)&r2, 0, sizeof r2); int before = sym<int>("before"); pack_t c; c << before << r << before; int bf = 0, af = 0; c >> bf >> r2 >> af; CHECK(bf == before && af == before, "neighbours in the stream are intact"); same(r, r2); }
ENTRY(record_two) { Rec r, s, q; memset((void*)&r, 0, sizeof r); memset((void*)&s, 0, sizeof s); symRec(r); symRec(s); pack_t a, b; a << r; b << s; bool e = a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()); bool differ = r.x != s.x || r.base1 != s.base1 || r.arr[2] != s.arr[2] || r.m2[1][1] != s.m2[1][1] || r.txt[3] != s.txt[3] || r.ia[1].a != s.ia[1].a || r.p.get() != s.p.get(); CHECK(!(e && differ), "different values never serialise to the same bytes"); sym_expect("eq"); if (e) sym_reach("eq"); }
ENTRY(outer) { Outer o, q; o.n.q = sym<int>("q"); o.e = sym<bool>("e") ? Outer::e1 : Outer::e0; symInner(o.t.val); o.t.n = sym<int>("n"); memset((void*)&q, 1, sizeof q); pack_t b; b << o; b >> q; CHECK(q.n.q == o.n.q && q.e == o.e && eq(q.t.val, o.t.val) && q.t.n == o.t.n, "nested and template types round trip"); CHECK(b.pos() == b.size(), "exact consumption"); }
#define CONT_CHECK(T, x, msg) { pack_t b; b << x; T y; b >> y; CHECK(x == y, msg); CHECK(b.pos() == b.size(), "exact consumption"); pack_t c; c << y; CHECK(c.size() == b.size() && !memcmp(c.data(), b.data(), b.size()), "deterministic bytes"); sym_observe(b.size(), "size"); }
ENTRY(vec) { typedef std::vector<int> T; unsigned n = sym_pick("n", 0, NC); T x; for (unsigned i = 0; i < n; i++) x.push_back(sym<int>("e")); CONT_CHECK(T, x, "vector<int>") { T pre(sym_pick("pre", 0, 2), 7); pack_t b; b << x; b >> pre; CHECK(pre == x, "previous contents are replaced"); } }
ENTRY(str) { typedef std::string T; unsigned n = sym_pick("n", 0, NS); T x = sym_string("s", n); CONT_CHECK(T, x, "string") T pre("something else"); pack_t b; b << x << x; b >> pre; CHECK(pre == x, "previous string replaced"); b >> pre; CHECK(pre == x, "second string"); }
ENTRY(wstr) { typedef std::wstring T; unsigned n = sym_pick("n", 0, NC); T x; for (unsigned i = 0; i < n; i++) x += sym<wchar_t>("w"); CONT_CHECK(T, x, "wstring") }
ENTRY(longstr) { unsigned n = sym_pick("n", 14, 18); std::string x(n, 'q'); x[n - 1] = sym<char>("c"); x[0] = sym<char>("d"); pack_t b; b << x; std::string y; b >> y; CHECK(x == y && b.pos() == b.size(), "string past the short-string boundary"); }
ENTRY(map) { typedef std::map<int, short> T; unsigned n = sym_pick("n", 0, NC); T x; for (unsigned i = 0; i < n; i++) x[sym<int>("k")] = sym<short>("v"); CONT_CHECK(T, x, "map") T pre; pre[3] = 4; pack_t b; b << x; b >> pre; CHECK(pre == x, "previous map contents are replaced"); }
ENTRY(setc) { typedef std::set<unsigned char> T; unsigned n = sym_pick("n", 0, NC); T x; for (unsigned i = 0; i < n; i++) x.insert(sym<unsigned char>("k")); CONT_CHECK(T, x, "set") }
ENTRY(multi) { typedef std::multimap<char, char> T; unsigned n = sym_pick("n", 0, NC); T x; std::multiset<char> ms; for (unsigned i = 0; i < n; i++) { char k = sym<char>("k"); x.insert(std::make_pair(k, sym<char>("v"))); ms.insert(k); } CONT_CHECK(T, x, "multimap") CONT_CHECK(std::multiset<char>, ms, "multiset") }
ENTRY(listc) { typedef std::list<Inner> T; unsigned n = sym_pick("n", 0, NC); T x, y; for (unsigned i = 0; i < n; i++) { Inner e; symInner(e); x.push_back(e); } pack_t b; b << x; b >> y; CHECK(x.size() == y.size(), "list length"); for (T::iterator i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j) CHECK(eq(*i, *j), "list elements in order"); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(vstr) { typedef std::vector<std::string> T; unsigned n = sym_pick("n", 0, NC); T x; for (unsigned i = 0; i < n; i++) x.push_back(sym_string("s", sym_pick("l", 0, 2))); CONT_CHECK(T, x, "vector<string>") }
ENTRY(vbool) { typedef std::vector<bool> T; unsigned n = sym_pick("n", 0, NC); T x; for (unsigned i = 0; i < n; i++) x.push_back(sym<bool>("b")); CONT_CHECK(T, x, "vector<bool>") }
ENTRY(pairs) { typedef std::pair<int, std::string> T; T x(sym<int>("a"), sym_string("s", 2)); CONT_CHECK(T, x, "pair") }
ENTRY(nested) { typedef std::map<char, std::vector<short> > T; T x; unsigned n = sym_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) { std::vector<short> v; unsigned m = sym_pick("m", 0, 2); for (unsigned j = 0; j < m; j++) v.push_back(sym<short>("e")); x[sym<char>("k")] = v; } CONT_CHECK(T, x, "map of vectors") }
ENTRY(contrec) {
  Cont c, d; c.v.push_back(sym<int>("v")); c.s = sym_string("s", 2); c.m[sym<int>("k")] = sym<short>("mv"); c.st.insert(sym<unsigned char>("st")); Inner in; symInner(in); c.l.push_back(in); c.dq.push_back(sym<short>("dq")); c.pr.first = sym<int>("p1"); c.pr.second = sym<char>("p2"); c.vs.push_back(c.s); c.vb.push_back(sym<bool>("vb")); c.mm.insert(std::make_pair('a', sym<char>("mm"))); c.ms.insert(sym<char>("ms"));
  pack_t b; b << c; d.v.push_back(9); d.s = "zz"; b >> d; CHECK(c.v == d.v && c.s == d.s && c.m == d.m && c.st == d.st && c.dq == d.dq && c.pr == d.pr && c.vs == d.vs && c.vb == d.vb && c.mm == d.mm && c.ms == d.ms && d.l.size() == 1 && eq(d.l.front(), in), "record of containers"); CHECK(b.pos() == b.size(), "exact consumption"); }
