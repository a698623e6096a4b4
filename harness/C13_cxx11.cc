// C13, second unit: the C++11 constructors
//@ std: c++11
//@ cd: pack typeName
//@ bounds: ranks 1 to 4, every dimension from 1 to 3, every index within them
#include "sym.h"
#include <cstring>
#include <cstddef>
#include <iterator>
#include "classdesc.h"
#include "multiArray.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
static long store[256];
static unsigned idx(const char* n, unsigned d) { unsigned i = sym<unsigned>(n); sym_assume(i < d); return i; }
ENTRY(rank23) { size_t d = sym_pick("d", 1, 3), e = sym_pick("e", 1, 3), f = sym_pick("f", 1, 3); MultiArray<long, 3> a(store, d, e, f); MultiArray<long, 2> b(store, d, e); const MultiArray<long, 3>& c = a; CHECK(a.size() == f && a.stride() == d * e && b.size() == e && b.stride() == d, "sizes"); unsigned i = idx("i", f), j = idx("j", e), k = idx("k", d); CHECK(&a[i][j][k] == store + k + d * (j + e * i) && &c[i][j][k] == &a[i][j][k] && &b[j][k] == store + k + d * j, "element"); unsigned n = 0; for (auto x : a) for (auto y : x) for (auto& z : y) { CHECK(&z == store + n, "order"); n++; } CHECK(n == d * e * f, "count"); }
ENTRY(rank4) { size_t d = sym_pick("d", 1, 2), e = sym_pick("e", 1, 2), f = sym_pick("f", 1, 3), g = sym_pick("g", 1, 2); MultiArray<long, 4> a(store, d, e, f, g); unsigned h = idx("h", g), i = idx("i", f), j = idx("j", e), k = idx("k", d); CHECK(&a[h][i][j][k] == store + k + d * (j + e * (i + f * h)), "element"); }
ENTRY(rank5_dims) { size_t dim[5], n = 1; for (int i = 0; i < 5; i++) { dim[i] = sym_pick("d", 1, i % 2 ? 2 : 3); n *= dim[i]; } const size_t* cd = dim; MultiArray<long, 5> a(store, cd), b(store, dim[0], dim[1], dim[2], dim[3], dim[4]); MultiArray<long, 4> f(store, cd), g(store, dim[0], dim[1], dim[2], dim[3]); CHECK(a.size() == dim[4] && a.stride() * dim[4] == n && b.size() == a.size() && b.stride() == a.stride() && f.size() == dim[3] && f.stride() == dim[0] * dim[1] * dim[2] && g.stride() == f.stride(), "either way of giving the dimensions"); unsigned h = idx("h", dim[4]), i = idx("i", dim[3]), j = idx("j", dim[2]), k = idx("k", dim[1]), l = idx("l", dim[0]); const long* at = store + l + dim[0] * (k + dim[1] * (j + dim[2] * i)); CHECK(&f[i][j][k][l] == at && &g[i][j][k][l] == at, "element"); at += dim[0] * dim[1] * dim[2] * dim[3] * h; CHECK(&a[h][i][j][k][l] == at && &b[h][i][j][k][l] == at, "element"); }
