// C04: deep comparison is a total order that agrees with member-wise equality.
//@ std: c++98
//@ cd: pack
//@ gen: vtypes.h -> vtypes.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: buffers of up to 4/6 arbitrary bytes (all pairs, all triples of length <=2/3); records and containers with <=2 elements
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "vtypes.h"
#include "vtypes.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vt;
#if TIER
enum {N2=6, N3=3};
#else
enum {N2=4, N3=2};
#endif
static void fill(pack_t& b, const char* n, unsigned k) { for (unsigned i = 0; i < k; i++) { char c = sym<char>(n); b.packraw(&c, 1); } }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
ENTRY(order) { pack_t a, b; unsigned n = sym_pick("n", 0, N2), m = sym_pick("m", 0, N2); fill(a, "a", n); fill(b, "b", m);
  bool same = n == m; if (same) for (unsigned i = 0; i < n; i++) if (a.data()[i] != b.data()[i]) { same = false; break; }
  CHECK((a == b) == same, "equal exactly when the bytes are equal"); CHECK((a != b) == !same, "inequality is the negation of equality"); CHECK((a < b) + (a > b) + (a == b) == 1, "exactly one of less, equal, greater"); CHECK((a < b) == (b > a), "less and greater are converse"); CHECK(sgn(a.cmp(b)) == -sgn(b.cmp(a)), "comparison is antisymmetric"); CHECK((a.cmp(b) == 0) == same, "comparison is zero exactly for equal buffers"); CHECK(a.cmp(b) >= -1 && a.cmp(b) <= 1, "comparison yields -1, 0 or 1"); CHECK((a.cmp(b) < 0) == (a < b), "operators agree with comparison"); sym_expect("lt"); if (a < b) sym_reach("lt"); }
ENTRY(transitive) { pack_t a, b, c; fill(a, "a", sym_pick("n", 0, N3)); fill(b, "b", sym_pick("m", 0, N3)); fill(c, "c", sym_pick("k", 0, N3)); if (a < b && b < c) { sym_reach("chain"); CHECK(a < c, "less-than is transitive"); } sym_expect("chain"); if (a == b && b == c) CHECK(a == c, "equality is transitive"); if (a == b) CHECK((a < c) == (b < c), "equal buffers compare alike"); }
ENTRY(deep_int) { int x = sym<int>("x"), y = sym<int>("y"); CHECK(deepEq(x, y) == (x == y), "deep equality of integers"); CHECK((deepCmp(x, y) == 0) == (x == y), "deep comparison of integers"); CHECK(sgn(deepCmp(x, y)) == -sgn(deepCmp(y, x)), "antisymmetric"); CHECK(deepCmp(x, y) >= -1 && deepCmp(x, y) <= 1, "comparison yields -1, 0 or 1"); }
ENTRY(deep_str) { std::string x = sym_string("x", sym_pick("n", 0, 3)), y = sym_string("y", sym_pick("m", 0, 3)); CHECK(deepEq(x, y) == (x == y), "deep equality of strings"); CHECK(sgn(deepCmp(x, y)) == -sgn(deepCmp(y, x)), "antisymmetric"); }
static void symInner(Inner& x) { x.a = sym<short>("in.a"); x.b = sym<unsigned char>("in.b"); x.c = sym<bool>("in.c"); }
ENTRY(deep_rec) { Inner x, y; symInner(x); symInner(y); CHECK(deepEq(x, y) == (x.a == y.a && x.b == y.b && x.c == y.c), "deep equality of records is member-wise"); CHECK(sgn(deepCmp(x, y)) == -sgn(deepCmp(y, x)), "antisymmetric"); }
ENTRY(deep_cont) { typedef std::map<char, std::vector<short> > M; M x, y; x[sym<char>("k")].push_back(sym<short>("v")); unsigned n = sym_pick("n", 0, 2); std::vector<short>& w = y[sym<char>("k")]; for (unsigned i = 0; i < n; i++) w.push_back(sym<short>("v")); CHECK(deepEq(x, y) == (x == y), "deep equality of containers"); CHECK(sgn(deepCmp(x, y)) == -sgn(deepCmp(y, x)), "antisymmetric"); }
