// C13: multidimensional array views
//@ std: c++17
//@ cd: pack typeName
//@ bounds: ranks 1 to 4, every dimension from 0 to 3 (quick: rank 4 up to 2), every index within them
#include "sym.h"
#include <cstring>
#include <cstddef>
#include <iterator>
#include "classdesc.h"
#include "multiArray.h"
#include "classdesc_epilogue.h"
#include <vector>
using namespace classdesc;
// element (i_n .. i_1) of an array of dimensions (d_1 .. d_n) lives at i_1+d_1*(i_2+d_2*(i_3+...)); the first index varies slowest
static int store[256];
static void init(unsigned n) { for (unsigned i = 0; i < n; i++) store[i] = (int)i; }
static unsigned idx(const char* n, unsigned d) { unsigned i = sym<unsigned>(n); sym_assume(i < d); return i; }
template <class A> static void order3(A& a, unsigned total) { unsigned k = 0; for (auto x : a) for (auto y : x) for (auto& z : y) { CHECK(&z == store + k, "iteration visits memory in order"); k++; } CHECK(k == total, "every element is visited once"); }
ENTRY(rank1) { unsigned d = sym_pick("d", 0, 3); init(d); MultiArray<int, 1> a(store, d); const auto& c = a; CHECK(a.size() == d && c.size() == d, "size"); CHECK(a.end() - a.begin() == (long)d && c.end() - c.begin() == (long)d, "range"); if (d) { unsigned i = idx("i", d); CHECK(&a[i] == store + i && &c[i] == store + i, "element"); a[i] = 77; CHECK(store[i] == 77, "writes through"); } }
ENTRY(rank2) { unsigned d = sym_pick("d", 0, 3), e = sym_pick("e", 0, 3); init(d * e); MultiArray<int, 2> a(store, d, e); const auto& c = a; CHECK(a.size() == e, "outer dimension comes last"); CHECK(a.stride() == d, "stride"); if (d && e) { unsigned i = idx("i", e), j = idx("j", d); CHECK(a[i].size() == d && &a[i][j] == store + i * d + j && &c[i][j] == store + i * d + j, "element"); } unsigned k = 0; for (auto x : a) for (auto& y : x) { CHECK(&y == store + k, "order"); k++; } CHECK(k == d * e || d == 0, "count"); }
ENTRY(rank3) { unsigned d = sym_pick("d", 1, 3), e = sym_pick("e", 1, 3), f = sym_pick("f", 0, 3); init(d * e * f); MultiArray<int, 3> a(store, d, e, f); const auto& c = a; CHECK(a.size() == f && a.stride() == d * e, "outer size and stride"); if (f) { unsigned i = idx("i", f), j = idx("j", e), k = idx("k", d), p = k + d * (j + e * i); CHECK(&a[i][j][k] == store + p && &c[i][j][k] == store + p, "element"); CHECK(a[i].size() == e && a[i].stride() == d && a[i][j].size() == d, "sizes of parts"); a[i][j][k] = -5; CHECK(store[p] == -5, "writes through"); } order3(a, d * e * f); }
ENTRY(rank4) { enum { M = TIER ? 3 : 2 }; unsigned d = sym_pick("d", 1, M), e = sym_pick("e", 1, M), f = sym_pick("f", 1, M), g = sym_pick("g", 1, M); init(d * e * f * g); MultiArray<int, 4> a(store, d, e, f, g); const auto& c = a; unsigned h = idx("h", g), i = idx("i", f), j = idx("j", e), k = idx("k", d), p = k + d * (j + e * (i + f * h)); CHECK(&a[h][i][j][k] == store + p && &c[h][i][j][k] == store + p, "element"); unsigned n = 0; for (auto x : a) { CHECK(x.size() == f && x.stride() == d * e, "size of part"); unsigned m = 0; for (auto y : x) for (auto z : y) for (auto& w : z) { CHECK(&w == store + n + m, "order"); m++; } n += m; } CHECK(n == d * e * f * g, "count"); }
ENTRY(from_dims) { size_t dim[3] = {sym_pick("d", 1, 3), sym_pick("e", 1, 3), sym_pick("f", 1, 3)}; const size_t* cd = dim; init(27); MultiArray<int, 3> a(store, cd), b(store, dim[0], dim[1], dim[2]); CHECK(a.size() == b.size() && a.stride() == b.stride(), "either way of giving the dimensions"); unsigned i = idx("i", dim[2]), j = idx("j", dim[1]), k = idx("k", dim[0]); CHECK(&a[i][j][k] == &b[i][j][k], "element"); }
ENTRY(empty_dims) { unsigned d = sym_pick("d", 0, 1), e = sym_pick("e", 0, 1), f = sym_pick("f", 0, 1); MultiArray<int, 3> a(store, d, e, f); CHECK(a.size() == f && a.stride() == d * e, "zero dimensions are allowed"); }
ENTRY(iterators) { unsigned d = sym_pick("d", 1, 3), e = sym_pick("e", 1, 3), f = sym_pick("f", 1, 3); init(d * e * f); MultiArray<int, 3> a(store, d, e, f); auto it = a.begin(); unsigned pos = 0;
  for (unsigned n = 0; n < 3; n++) { switch (sym_pick("op", 0, 4)) { case 0: sym_assume(pos < f); ++it; pos++; break; case 1: { sym_assume(pos < f); auto o = it++; CHECK(o.array.same(a[pos]), "previous position"); pos++; break; } case 2: sym_assume(pos > 0); --it; pos--; break; case 3: { sym_assume(pos > 0); auto o = it--; CHECK(pos == f || o.array.same(a[pos]), "previous position"); pos--; break; } case 4: { unsigned k = sym_pick("k", 0, 3); sym_assume(pos + k <= f); it += k; pos += k; break; } }
    CHECK((it == a.end()) == (pos == f) && (it != a.end()) == (pos != f), "end is reached exactly"); if (pos < f) CHECK(&(*it)[0][0] == store + pos * d * e && (*it).size() == e && (*it).stride() == d, "denotes the right part"); } }
ENTRY(same) { unsigned d = sym_pick("d", 1, 3), e = sym_pick("e", 1, 3); MultiArray<int, 2> a(store, d, e), b(store, d, e), c(store + 1, d, e); CHECK(a.same(b) && !a.same(c), "same memory"); unsigned i = idx("i", e), j = idx("j", e); CHECK(a[i].same(a[j]) == (i == j), "parts"); }
ENTRY(rank5_dims) { size_t dim[5], n = 1; for (int i = 0; i < 5; i++) { dim[i] = sym_pick("d", 1, i % 2 ? 2 : 3); n *= dim[i]; } const size_t* cd = dim; MultiArray<int, 5> a(store, cd), b(store, dim[0], dim[1], dim[2], dim[3], dim[4]); MultiArray<int, 4> f(store, cd), g(store, dim[0], dim[1], dim[2], dim[3]); CHECK(a.size() == dim[4] && a.stride() * dim[4] == n && b.size() == a.size() && b.stride() == a.stride() && f.size() == dim[3] && f.stride() == dim[0] * dim[1] * dim[2] && g.stride() == f.stride(), "either way of giving the dimensions"); unsigned h = idx("h", dim[4]), i = idx("i", dim[3]), j = idx("j", dim[2]), k = idx("k", dim[1]), l = idx("l", dim[0]); const int* at = store + l + dim[0] * (k + dim[1] * (j + dim[2] * i)); CHECK(&f[i][j][k][l] == at && &g[i][j][k][l] == at, "element"); at += dim[0] * dim[1] * dim[2] * dim[3] * h; CHECK(&a[h][i][j][k][l] == at && &b[h][i][j][k][l] == at, "element"); }
