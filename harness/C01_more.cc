// C01, second unit: long deques, container iterators, method pointers, const members, excluded members
//@ std: c++98
//@ cd: pack
//@ gen: vmore.h -> vmore.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: deques up to 8 (quick) / 20 nodes; iterators at every position of containers of up to 3 elements
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "vmore.h"
#include "vmore.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vm;
ENTRY(deque_long) { std::deque<Big> x, y; unsigned n = sym_pick("n", 0, TIER ? 20 : 8); for (unsigned i = 0; i < n; i++) { Big b; memset(&b, 0, sizeof b); b.pay[0] = sym<long>("e"); b.pay[63] = i; x.push_back(b); } pack_t b; b << x; y.resize(2); b >> y; CHECK(y.size() == n, "length"); for (unsigned i = 0; i < n; i++) CHECK(y[i].pay[0] == x[i].pay[0] && y[i].pay[63] == (long)i, "elements in order"); CHECK(b.pos() == b.size(), "exact consumption"); }
template <class C> void iter(C& c, C& d, unsigned n) { Iterator<C> i(c), j(d); unsigned at = sym_pick("at", 0, n); typename C::iterator k = c.begin(); std::advance(k, at); i = k; pack_t b; b << i; b >> j; CHECK((unsigned)std::distance(d.begin(), j.iter()) == at, "an iterator is restored to the same position"); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(iterators) { unsigned n = sym_pick("n", 0, 3); std::vector<int> v(n), v2(n); iter(v, v2, n); std::list<int> l(n), l2(n); iter(l, l2, n); std::map<int, int> m, m2; for (unsigned i = 0; i < n; i++) m[i] = m2[i] = 3; iter(m, m2, n); }
ENTRY(consts) { WithConst a, b; a.x = sym<int>("x"); a.y = sym<short>("y"); b.x = 0; b.y = 0; b.hidden = 77; a.hidden = 5; pack_t p; p << a; p >> b; CHECK(b.x == a.x && b.y == a.y, "members around const and excluded ones"); CHECK(b.k == 42, "const members are not overwritten"); CHECK(int(b.hidden) == 77, "excluded members are untouched"); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(methptr) { int (Meth::*f)(int) = sym<bool>("w") ? &Meth::one : &Meth::two; int (Meth::*g)(int) = 0; pack_t p; ::pack(p, "", f); ::unpack(p, "", g); CHECK(f == g, "method pointers round trip"); CHECK(p.pos() == p.size(), "exact consumption"); Meth m; m.a = sym<int>("a"); CHECK((m.*g)(3) == (m.*f)(3), "and can be called"); }
ENTRY(temporaries) { pack_t p; int x = sym<int>("x"); const int cx = x; p << cx << (short)x << std::string("ab") << true; int y = 0; short s = 0; std::string t; bool b = false; p >> y >> s >> t >> b; CHECK(y == x && s == (short)x && t == "ab" && b, "const and temporary values"); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(uninit_arrays) { Arr a, b; for (int i = 0; i < 24; i++) (&a.three[0][0][0])[i] = sym<short>("e"); for (int i = 0; i < 6; i++) (&a.txt2[0][0])[i] = sym<char>("t"); for (int i = 0; i < 2; i++) a.vs[i] = std::vector<int>(i + 1, sym<int>("v")); a.en[0] = sym<bool>("b") ? w1 : w2; a.en[1] = w2; memset((void*)&b.three, 0, sizeof b.three); pack_t p; p << a; p >> b; CHECK(!memcmp(a.three, b.three, sizeof a.three), "3-d array"); CHECK(!memcmp(a.txt2, b.txt2, 6), "2-d char array"); CHECK(a.vs[0] == b.vs[0] && a.vs[1] == b.vs[1], "array of containers"); CHECK(a.en[0] == b.en[0] && a.en[1] == b.en[1], "array of enums"); CHECK(p.pos() == p.size(), "exact consumption"); }
// const containers keep what they have, and however much was packed is passed over
ENTRY(const_containers) { unsigned n = sym_pick("n", 0, 3), m = sym_pick("m", 0, 3); WithConstC a(n, 5), b(m, 9); const WithConstC c(m, 9); a.x = sym<int>("x"); a.y = sym<short>("y"); a.z = sym<int>("z"); a.last = sym<char>("last"); b.x = b.y = b.z = b.last = 0; pack_t p; p << a; p >> b; CHECK(b.x == a.x && b.y == a.y && b.z == a.z && b.last == a.last, "members around const containers"); CHECK(b.cv == c.cv && b.cm == c.cm && b.cl == c.cl && b.cs == c.cs && b.ct == c.ct && b.cp == c.cp, "const containers are not overwritten"); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(const_bases) { const std::vector<int> k(sym_pick("m", 0, 2), 4); const std::map<int, int> km; std::vector<int> a(sym_pick("n", 0, 3), sym<int>("v")); std::map<int, int> am; for (size_t i = 0; i < a.size(); i++) am[i] = 3; int t = sym<int>("t"), u = 0; pack_t p; p << a << am << t; unpack(p, "", k); unpack(p, "", km); p >> u; CHECK(u == t && p.pos() == p.size(), "passed over exactly"); CHECK(km.empty(), "const containers are not overwritten"); }
ENTRY(enums) { static const Which e[] = {w1, w2, w3, w4}; Which x = e[sym_pick("e", 0, 3)], y = w1; std::vector<Which> v(2, x), w; std::map<Which, Which> m, k; m[x] = w4; m[w3] = x; pack_t p; p << x << v << m; p >> y >> w >> k; CHECK(x == y && v == w && m == k, "enums of any value"); CHECK(p.pos() == p.size(), "exact consumption"); }
