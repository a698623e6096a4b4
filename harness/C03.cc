// C03: a serialisation buffer behaves as one byte sequence with a read position, over any history.
//@ std: c++98
//@ cd: pack
//@ bounds: every history of 4 (quick) / 5 (thorough) operations from {raw write, typed write, raw read, typed read, rewind input, rewind output, step back input, move output, clear, swap, resize}; raw blocks up to 3 bytes
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
#if TIER
enum {NOPS=5};
#else
enum {NOPS=4};
#endif
struct Model { std::vector<unsigned char> d; size_t pos; Model(): pos(0) {} };
static void agree(pack_t& b, Model& m) {
  CHECK(b.size() == m.d.size(), "size is the number of bytes written"); CHECK(b.pos() == m.pos, "position is the number of bytes read"); CHECK(bool(b) == (m.pos < m.d.size()), "more-data test");
  for (size_t i = 0; i < m.d.size(); i++) CHECK((unsigned char)b.data()[i] == m.d[i], "contents are the bytes written, in order"); }
static void put(Model& m, const void* p, size_t n) { for (size_t i = 0; i < n; i++) m.d.push_back(((const unsigned char*)p)[i]); }
static bool take(Model& m, void* p, size_t n) { if (m.pos > m.d.size() || n > m.d.size() - m.pos) return false; for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = m.d[m.pos + i]; m.pos += n; return true; }
static void op(unsigned o, pack_t& b, Model& m, pack_t& c, Model& mc) {
  switch (o) {
  case 0: { unsigned n = sym_pick("n", 0, 3); char t[3]; for (unsigned i = 0; i < n; i++) t[i] = sym<char>("w"); b.packraw(t, n); put(m, t, n); break; }
  case 1: { short v = sym<short>("v"); b << v; put(m, &v, 2); break; }
  case 2: { unsigned n = sym_pick("rn", 0, 3); char t[3] = {9, 9, 9}, u[3] = {9, 9, 9}; bool ok = true; try { b.unpackraw(t, n); } catch (std::exception&) { ok = false; } CHECK(ok == take(m, u, n), "a raw read succeeds exactly when enough bytes remain"); CHECK(!memcmp(t, u, 3), "raw read returns the next bytes"); break; }
  case 3: { short v = 77, u = 77; bool ok = true; try { b >> v; } catch (std::exception&) { ok = false; } CHECK(ok == take(m, &u, 2), "a typed read succeeds exactly when enough bytes remain"); CHECK(u == v, "typed read returns the next value"); break; }
  case 4: b.reseti(); m.d.clear(); break;
  case 5: b.reseto(); m.pos = 0; break;
  case 6: { long k = sym_range("back", 0, 3); sym_assume((size_t)k <= m.d.size()); k = sym_conc(k); b.seeki(-k); m.d.resize(m.d.size() - k); break; }
  case 7: { long k = (long)sym_range("fwd", 0, 4) - 2; sym_assume(k + (long)m.pos >= 0 && k + (long)m.pos <= (long)m.d.size()); k = (long)sym_conc(k); b.seeko(k); m.pos += k; break; }
  case 8: b.clear(); m.d.clear(); m.pos = 0; break;
  case 9: b.swap(c); std::swap(m, mc); break;
  case 10: { unsigned n = sym_pick("rs", 0, 2); if (n > m.d.size()) break; b.resize(n); m.d.resize(n); break; }
  } }
ENTRY(history) { //@@ fix:op=0..10
  pack_t b, c; Model m, mc; char seed[2] = {1, 2}; c.packraw(seed, 2); put(mc, seed, 2); long live0 = sym_live(); (void)live0;
  for (int i = 0; i < NOPS; i++) { op(sym_pick("op", 0, 10), b, m, c, mc); agree(b, m); }
  agree(c, mc); sym_observe(b.size(), "size"); sym_observe(b.pos(), "pos"); }
ENTRY(growth) { pack_t b; unsigned n = sym_pick("n", 1, 12); std::vector<unsigned char> e; for (unsigned i = 0; i < n; i++) { unsigned char v = sym<unsigned char>("v"); b << v; e.push_back(v); } for (unsigned i = 0; i < n; i++) { unsigned char v; b >> v; CHECK(v == e[i], "first in, first out"); } CHECK(!b, "drained"); }
ENTRY(interleave) { pack_t b; std::vector<unsigned char> e; unsigned r = 0; for (int i = 0; i < 8; i++) { if (sym<bool>("write")) { unsigned char v = sym<unsigned char>("v"); b << v; e.push_back(v); } else { unsigned char v = 0; bool ok = true; try { b >> v; } catch (std::exception&) { ok = false; } CHECK(ok == (r < e.size()), "reads stop at the end of data"); if (ok) CHECK(v == e[r++], "first in, first out"); } } }
ENTRY(release) { unsigned long before = sym_live(); { pack_t b, c; int x = 3; b << x << x; c << x; b.swap(c); if (sym<bool>("clr")) b.clear(); if (sym<bool>("rs")) c.resize(0); if (sym<bool>("again")) { b << x; } } CHECK(sym_live() == before, "the buffer releases all its storage"); }
// settings and unpacked nodes go with the contents
ENTRY(swap_flags) { pack_t a, b; a.ptr_flag = Ptr_flag(sym_pick("a", 0, 2)); b.ptr_flag = Ptr_flag(sym_pick("b", 0, 2)); a.recur_max = sym<unsigned>("ra"); b.recur_max = sym<unsigned>("rb"); Ptr_flag fa = a.ptr_flag, fb = b.ptr_flag; unsigned ra = a.recur_max, rb = b.recur_max; a.alloced.resize(1); a.swap(b); CHECK(a.ptr_flag == fb && b.ptr_flag == fa, "pointer handling goes with the contents"); CHECK(a.recur_max == rb && b.recur_max == ra, "as does the recursion limit"); CHECK(a.alloced.empty() && b.alloced.size() == 1, "and allocations"); }
