//@ std: c++14
//@ cd: pack
//@ bounds: moved buffers: contents up to 3 bytes, followed by 2 operations on source and target
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
ENTRY(move_construct) { unsigned n = sym_pick("n", 0, 3); pack_t a; std::vector<char> e; for (unsigned i = 0; i < n; i++) { char c = sym<char>("c"); a << c; e.push_back(c); } unsigned r = sym_pick("read", 0, n); for (unsigned i = 0; i < r; i++) { char c; a >> c; }
  pack_t b(std::move(a)); CHECK(b.size() == n && b.pos() == r, "the target takes over size and position"); for (unsigned i = r; i < n; i++) { char c; b >> c; CHECK(c == e[i], "the target takes over the contents"); } CHECK(!b, "drained");
  int v = sym<int>("v"), w = 0; a.clear(); a << v; CHECK(a.size() == 4, "a moved-from buffer can be cleared and reused"); a >> w; CHECK(v == w, "a moved-from buffer can be cleared and reused"); }
ENTRY(move_from_append) { pack_t a; a << 1; pack_t b(std::move(a)); int v = sym<int>("v"), w = 0; size_t s0 = a.size(); CHECK(s0 == 0 || s0 == 4, "a moved-from buffer is in a valid state"); a << v; CHECK(a.size() == s0 + 4, "a moved-from buffer accepts data"); a.reseto(); a.seeko(s0); a >> w; CHECK(v == w, "and returns it"); }
ENTRY(move_assign) { pack_t a, b; int x = sym<int>("x"), y = sym<int>("y"), z = 0; a << x; b << y << y; b = std::move(a); CHECK(b.size() == 4, "the target takes over the contents"); b >> z; CHECK(z == x, "the target takes over the contents"); a.clear(); a << y; a >> z; CHECK(z == y, "source reusable"); }
ENTRY(move_vector) { std::vector<pack_t> v; unsigned n = sym_pick("n", 1, 4); for (unsigned i = 0; i < n; i++) { v.emplace_back(); v.back() << int(i); } for (unsigned i = 0; i < n; i++) { int k = -1; v[i] >> k; CHECK(k == (int)i, "buffers in a growing vector keep their contents"); } }
ENTRY(move_flags) { pack_t a, b; a.ptr_flag = Ptr_flag(sym_pick("a", 0, 2)); b.ptr_flag = Ptr_flag(sym_pick("b", 0, 2)); a.recur_max = sym<unsigned>("ra"); Ptr_flag fa = a.ptr_flag; unsigned ra = a.recur_max; a.alloced.resize(1); a << 3; if (sym<bool>("assign")) { b = std::move(a); CHECK(b.ptr_flag == fa && b.recur_max == ra && b.alloced.size() == 1 && b.size() == 4, "settings and allocations go with the contents"); } else { pack_t c(std::move(a)); CHECK(c.ptr_flag == fa && c.recur_max == ra && c.alloced.size() == 1 && c.size() == 4 && a.alloced.empty(), "settings and allocations go with the contents"); } }
