// C09: XDR buffers: machine independent form, round trips, any history
//@ std: c++11
//@ defs: XDR_PACK HAVE_LONGLONG
//@ ir: -I/usr/include/tirpc
//@ native: -I/usr/include/tirpc -ltirpc
//@ cd: pack
//@ gen: vxdr.h -> vxdr.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: all values of every basic type; sequences of up to 4 (quick) / 5 mixed operations; strings and arrays up to 6 bytes; single items of up to 1100 bytes and streams crossing the 1024 byte growth step
//@ assume: libtirpc's in-memory XDR streams are replaced by a model (harness/xdrmodel.h); the native replays use the real library
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include "xdrmodel.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "vxdr.h"
#include "vxdr.cd"
#include "classdesc_epilogue.h"
#include "xdr_pack.cc"
using namespace classdesc; using namespace vx;
enum { NOP = TIER ? 4 : 3 };
static unsigned be32(const pack_t& b, size_t o) { const unsigned char* p = (const unsigned char*)b.data() + o; return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void obs(const pack_t& b) { for (size_t i = 0; i < b.size(); i++) sym_observe((unsigned char)b.data()[i], "byte"); }
template <class T> bool rd(xdr_pack& b, T& y) { try { b >> y; return true; } catch (pack_error&) { return false; } }
// small integers occupy one four byte big endian unit, sign or zero extended
template <class T> void small(bool bytes) { T x = sym<T>("v"), y = 0; const T was = x; xdr_pack b; b << x; CHECK(x == was, "what is written is not changed"); CHECK(b.size() == 4, "one unit"); if (bytes) CHECK(be32(b, 0) == (unsigned)(int)x, "big endian, sign extended"); obs(b); b >> y; CHECK(x == y, "round trip"); CHECK(b.pos() == 4, "exact consumption"); T z = y; CHECK(!rd(b, z) && z == y && b.pos() == 4, "nothing is read past the end"); }
ENTRY(small_ints) { small<bool>(1); small<char>(1); small<signed char>(1); small<unsigned char>(1); small<short>(1); small<unsigned short>(1); small<int>(1); small<unsigned>(1); small<wchar_t>(1); }
template <class T> void lng(T lo, T hi) { T x = sym<T>("v"), y = 0; const T was = x; xdr_pack b; int before = 7; b << before; bool ok = true; try { b << x; } catch (pack_error&) { ok = false; } CHECK(x == was, "what is written is not changed"); CHECK(ok == (was >= lo && was <= hi), "a long is accepted exactly if it fits"); if (!ok) { CHECK(b.size() == 4, "a refused value leaves no trace"); int q = 0; b >> q; CHECK(q == 7, "what was there is intact"); return; } CHECK(b.size() == 8 && be32(b, 4) == (unsigned)x, "one unit"); obs(b); int q = 0; b >> q >> y; CHECK(q == 7 && x == y, "round trip"); }
ENTRY(longs) { lng<long>(-2147483647L - 1, 2147483647L); lng<unsigned long>(0, 0xffffffffUL); }
template <class T> void wide() { T x, y; sym_make(&x, 8, "v"); memset(&y, 0, 8); unsigned long ux, uy; xdr_pack b; b << x; memcpy(&ux, &x, 8); CHECK(b.size() == 8 && be32(b, 0) == (unsigned)(ux >> 32) && be32(b, 4) == (unsigned)ux, "two units, most significant first"); obs(b); b >> y; memcpy(&uy, &y, 8); CHECK(ux == uy && b.pos() == 8, "round trip"); }
ENTRY(hypers) { wide<long long>(); wide<unsigned long long>(); wide<double>(); }
ENTRY(floats) { unsigned u = sym<unsigned>("f"), v; float f, g = 0; memcpy(&f, &u, 4); xdr_pack b; b << f; CHECK(b.size() == 4 && be32(b, 0) == u, "IEEE bits"); b >> g; memcpy(&v, &g, 4); CHECK(u == v, "round trip"); bool t = false; long double ld = 1; try { b << ld; } catch (pack_error&) { t = true; } CHECK(t && b.size() == 4, "long double is refused"); }
ENTRY(raw) { unsigned n = sym_pick("n", 0, 6); char x[8], y[8]; for (int i = 0; i < 8; i++) { x[i] = sym<char>("c"); y[i] = 'z'; } xdr_pack b; int m = sym<int>("m"), m2 = 0; b.packraw(x, n); b << m; unsigned pn = (n + 3) / 4 * 4; CHECK(b.size() == pn + 4, "padded to a unit"); for (unsigned i = n; i < pn; i++) CHECK(b.data()[i] == 0, "padding is zero"); obs(b); b.unpackraw(y, n); CHECK(!memcmp(x, y, n), "bytes"); for (unsigned i = n; i < 8; i++) CHECK(y[i] == 'z', "nothing beyond is written"); CHECK(b.pos() == pn, "padding consumed"); b >> m2; CHECK(m == m2, "what follows"); }
static void fill(Rec& r) { r.b = sym<short>("b"); r.f = sym<bool>("f"); r.c = sym<char>("c"); r.uc = sym<unsigned char>("uc"); r.us = sym<unsigned short>("us"); r.i = sym<int>("i"); r.u = sym<unsigned>("u"); r.l = sym<int>("l"); r.ul = sym<unsigned>("ul"); r.ll = sym<long long>("ll"); r.ull = sym<unsigned long long>("ull"); sym_make(&r.fl, 4, "fl"); sym_make(&r.d, 8, "d"); r.e = sym_range("e", 0, 1) ? blue : green; r.arr[0] = sym<int>("a0"); r.arr[1] = sym<int>("a1"); r.p.set(sym<int>("p")); }
static bool eq(const Rec& x, const Rec& y) { return x.b == y.b && x.f == y.f && x.c == y.c && x.uc == y.uc && x.us == y.us && x.i == y.i && x.u == y.u && x.l == y.l && x.ul == y.ul && x.ll == y.ll && x.ull == y.ull && !memcmp(&x.fl, &y.fl, 4) && !memcmp(&x.d, &y.d, 8) && x.e == y.e && x.arr[0] == y.arr[0] && x.arr[1] == y.arr[1] && x.p.get() == y.p.get(); }
ENTRY(record) { Rec x, y; fill(x); memset(&y, 0, sizeof y); y.e = red; xdr_pack b; b << x; obs(b); b >> y; CHECK(eq(x, y), "record round trip"); CHECK(b.pos() == b.size(), "exact consumption"); xdr_pack c; c << y; CHECK(c == b, "equal values, identical bytes"); }
ENTRY(containers) { Cont x, y; x.v.resize(sym_pick("nv", 0, 2)); for (unsigned i = 0; i < x.v.size(); i++) x.v[i] = sym<short>("v"); x.s = sym_string("s", sym_pick("ns", 0, 5)); for (unsigned i = 0, n = sym_pick("nm", 0, 2); i < n; i++) x.m[sym<char>("k")] = sym<int>("mv"); x.mark = sym<int>("mark"); y.v.resize(3); y.s = "old"; y.m[3] = 4; xdr_pack b; b << x; b >> y; CHECK(x.v == y.v, "vector"); CHECK(x.s == y.s, "string"); CHECK(x.m == y.m, "map"); CHECK(x.mark == y.mark && b.pos() == b.size(), "what follows"); }
ENTRY(truncated) { Cont x, y; x.v.push_back(sym<short>("v")); x.s = sym_string("s", sym_pick("ns", 0, 3)); x.m['a'] = 1; x.mark = 2; xdr_pack b; b << x; unsigned n = sym_pick("cut", 0, 40); if (n >= b.size()) return; xdr_pack c; c.resize(n); memcpy(c.data(), b.data(), n); bool t = false; try { c >> y; } catch (std::exception&) { t = true; } CHECK(t, "truncated data is refused"); sym_reach("cut"); sym_expect("cut"); }
ENTRY(hostile) { sym_alloc_limit(64); unsigned n = sym_pick("n", 0, TIER ? 16 : 12); xdr_pack c; c.resize(n); for (unsigned i = 0; i < n; i++) c.data()[i] = sym<char>("c"); std::string s = "old"; try { c >> s; CHECK(s.size() + 4 <= n, "no more than is there"); } catch (std::exception&) {} CHECK(c.pos() <= c.size(), "position within the data"); } //@@ time=200/800
// arbitrary histories against a reference queue
ENTRY(history) { xdr_pack b, other; int v[NOP + 1]; bool isll[NOP + 1]; unsigned w = 0, r = 0, size = 0, pos = 0; 
  for (unsigned i = 0; i < NOP + 1; i++) switch (sym_pick("op", 0, 7)) {
    case 0: v[w] = sym<int>("v"); isll[w++] = false; b << v[w - 1]; size += 4; break;
    case 1: v[w] = sym<int>("v"); isll[w++] = true; b << (long long)v[w - 1]; size += 8; break;
    case 2: if (r < w) { if (isll[r]) { long long y = 0; b >> y; CHECK(y == v[r], "next item"); pos += 8; } else { int y = 0; b >> y; CHECK(y == v[r], "next item"); pos += 4; } r++; } else { char y = 5; CHECK(!rd(b, y) && y == 5, "end of data"); } break;
    case 3: b.reseto(); r = pos = 0; break;
    case 4: b.reseti(); b.reseto(); w = r = size = pos = 0; break;
    case 5: if (w > r) { w--; unsigned k = isll[w] ? 8 : 4; b.seeki(-(long)k); size -= k; } break;
    case 6: if (r) { r--; unsigned k = isll[r] ? 8 : 4; b.seeko(-(long)k); pos -= k; } break;
    case 7: { xdr_pack c(std::move(b)); CHECK(b.size() == 0 && b.pos() == 0, "moved from is empty"); if (sym<bool>("swap")) b.swap(c); else b = std::move(c); } break;
    }
  CHECK(b.size() == size && b.pos() == pos, "size and position"); while (r < w) { if (isll[r]) { long long y = 0; b >> y; CHECK(y == v[r], "remaining"); } else { int y = 0; b >> y; CHECK(y == v[r], "remaining"); } r++; } CHECK(!b, "nothing left"); } //@@ time=300/1500
ENTRY(growth) { // items before, across and after the growth step
  xdr_pack b; unsigned k = sym_pick("k", 253, 258); int a = sym<int>("a"), z = sym<int>("z"); for (unsigned i = 0; i < k; i++) b << (int)i; b << a; unsigned early = sym_pick("early", 0, 1); int y = -1; if (early) for (unsigned i = 0; i < k; i++) { b >> y; CHECK(y == (int)i, "in order"); } for (unsigned i = 0; i < 3; i++) b << z; if (!early) for (unsigned i = 0; i < k; i++) { b >> y; CHECK(y == (int)i, "in order"); } b >> y; CHECK(y == a, "a"); for (unsigned i = 0; i < 3; i++) { b >> y; CHECK(y == z, "z"); } CHECK(!b && b.size() == 4 * (k + 4), "all consumed"); }
ENTRY(big) { static char x[1100], y[1100]; unsigned n = sym_pick("n", 1020, 1030); for (unsigned i = 0; i < n; i++) x[i] = (char)i; x[n - 1] = sym<char>("c"); x[0] = sym<char>("d"); xdr_pack b; if (sym<bool>("pre")) b << 1; int m = sym<int>("m"), q = 0; b.packraw(x, n); b << m; if (b.size() == 4 + (n + 3) / 4 * 4 + 4) b >> q; b.unpackraw(y, n); CHECK(!memcmp(x, y, n), "big item"); b >> q; CHECK(q == m && !b, "what follows"); }
ENTRY(external) { // the raw buffer may be filled, resized or cleared from outside between stream operations
  xdr_pack b, src; int v = sym<int>("v"), w = sym<int>("w"), y = 0; src << v; if (sym<bool>("used")) { b << w; if (sym<bool>("read")) b >> y; b.clear(); CHECK(b.size() == 0 && b.pos() == 0, "cleared"); } b.resize(src.size()); memcpy(b.data(), src.data(), src.size()); b >> y; CHECK(y == v, "received data is read"); b << w; y = 0; b >> y; CHECK(y == w, "and can be added to"); b.reseti(); b.reseto(); b << w; b >> y; CHECK(y == w && !b, "reused"); }
ENTRY(presized) { xdr_pack b(sym_pick("sz", 0, 9)); b.reseti(); int v = sym<int>("v"), y = 0; b << v << v; b >> y; CHECK(y == v, "a presized buffer"); b >> y; CHECK(y == v && !b, "a presized buffer, grown"); pack_t p; bool t = false; try { b.swap(p); } catch (std::exception&) { t = true; } CHECK(t, "swapping with another kind of buffer is refused"); }
// withdrawing what has already been read leaves the reading position beyond the end
ENTRY(behind) { xdr_pack b; int v = sym<int>("v"), w = sym<int>("w"), y = 0; long long z = 7; unsigned big = sym_pick("big", 0, 1), n = 1 + big; b << v; if (big) b << (long long)w; else b << w; b >> y; if (sym<bool>("read")) { if (big) b >> z; else b >> y; } else { b >> y; if (big) b >> y; } b.seeki(-4 * (long)n); CHECK(b.size() == 4, "withdrawn"); y = 7; char c = 7; bool t = false; try { if (sym<bool>("c")) b >> c; else b >> y; } catch (pack_error&) { t = true; } CHECK(t && c == 7 && y == 7, "what was withdrawn is not read again"); }
ENTRY(swap_sizes) { xdr_pack b, c; unsigned n = sym_pick("n", 0, 2) * 200, m = sym_pick("m", 0, 1) * 3, k = sym_pick("k", 0, 1) * 270; int v = sym<int>("v"), y = -1; for (unsigned i = 0; i < n; i++) b << (int)i; for (unsigned i = 0; i < m; i++) c << v; if (sym<bool>("member")) b.swap(c); else { xdr_pack t(std::move(b)); b = std::move(c); c = std::move(t); } CHECK(b.size() == 4 * m && c.size() == 4 * n, "swapped"); for (unsigned i = 0; i < k; i++) { b << (int)i; c << (int)i; } b << v; c << v;
  for (unsigned i = 0; i < m; i++) { b >> y; CHECK(y == v, "swapped"); } for (unsigned i = 0; i < k; i++) { b >> y; CHECK(y == (int)i, "written after swapping"); } b >> y; CHECK(y == v && !b, "written after swapping"); for (unsigned i = 0; i < n; i++) { c >> y; CHECK(y == (int)i, "swapped"); } for (unsigned i = 0; i < k; i++) { c >> y; CHECK(y == (int)i, "written after swapping"); } c >> y; CHECK(y == v && !c, "written after swapping"); }
ENTRY(cut_short) { sym_realloc_stays(); xdr_pack b; unsigned n = sym_pick("n", 1, 3), m = sym_pick("m", 0, 2); if (m > n) return; int v = sym<int>("v"), y = -1; for (unsigned i = 0; i < n; i++) b << (int)i; b.resize(4 * m); unsigned r = 0; if (sym<bool>("read")) for (; r < m; r++) { b >> y; CHECK(y == (int)r, "what remains"); } b << v; CHECK(b.size() == 4 * (m + 1), "added to what remains"); for (; r < m; r++) { b >> y; CHECK(y == (int)r, "what remains"); } b >> y; CHECK(y == v && !b, "added to what remains"); }
