// C02: unpacking arbitrary (truncated, corrupt, hostile) data never touches memory outside the
// buffer or the target; it either yields a value or throws a standard exception.
//@ std: c++98
//@ cd: pack
//@ gen: vtypes.h -> vtypes.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: every byte string of up to 12/20 bytes (records: 40), every length field value; allocations above 48 bytes fail with bad_alloc
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "vtypes.h"
#include "vtypes.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
using namespace vt;
#if TIER
enum {NB=20};
#else
enum {NB=14};
#endif
static void fill(pack_t& b, unsigned n) { std::vector<char> d(n + 1); for (unsigned i = 0; i < n; i++) d[i] = sym<char>("byte"); b.packraw(&d[0], n); }
template <class T> bool attempt(pack_t& b, T& t) {
  size_t p0 = b.pos(), s0 = b.size(); sym_alloc_limit(48); bool ok = true;
  try { b >> t; } catch (std::exception&) { ok = false; }
  sym_alloc_limit(1 << 20);
  CHECK(b.size() == s0, "unpacking does not change the size of the data"); CHECK(b.pos() >= p0 && b.pos() <= b.size(), "the read position stays inside the data");
  sym_observe(ok, "ok"); sym_observe(b.pos(), "pos"); if (ok) sym_reach("accepted"); else sym_reach("refused"); return ok; }
#define HOSTILE(T, lo) sym_expect("accepted"); sym_expect("refused"); pack_t b; fill(b, sym_pick("len", lo, NB)); T t; bool ok = attempt(b, t);
ENTRY(vec_int) { HOSTILE(std::vector<int>, 0) if (ok) CHECK(b.pos() == 8 + 4 * t.size(), "consumed exactly what the value takes"); }
ENTRY(vec_char) { HOSTILE(std::vector<char>, 0) if (ok) CHECK(b.pos() == 8 + t.size(), "consumed exactly what the value takes"); }
ENTRY(str) { HOSTILE(std::string, 0) if (ok) CHECK(b.pos() == 8 + t.size(), "consumed exactly what the value takes"); }
ENTRY(wstr) { HOSTILE(std::wstring, 0) if (ok) CHECK(b.pos() == 8 + sizeof(wchar_t) * t.size(), "consumed exactly what the value takes"); }
ENTRY(setc) { HOSTILE(std::set<char>, 0) }
ENTRY(mapc) { typedef std::map<char, short> M; HOSTILE(M, 0) }
ENTRY(listc) { HOSTILE(std::list<Inner>, 0) if (ok) CHECK(b.pos() == 8 + 4 * t.size(), "consumed exactly what the value takes"); }
ENTRY(vbool) { HOSTILE(std::vector<bool>, 0) }
ENTRY(vstr) { HOSTILE(std::vector<std::string>, 6) }
ENTRY(pairs) { typedef std::pair<short, std::string> P; HOSTILE(P, 0) }
ENTRY(constvec) { const std::vector<int> t(2, 5); sym_expect("accepted"); sym_expect("refused"); pack_t b; fill(b, sym_pick("len", 0, NB)); size_t p0 = b.pos(); bool ok = true; try { unpack(b, "", t); } catch (std::exception&) { ok = false; } CHECK(t.size() == 2 && t[0] == 5 && t[1] == 5, "a const container is left alone"); CHECK(b.pos() <= b.size(), "position inside the data"); sym_reach(ok ? "accepted" : "refused"); (void)p0; }
ENTRY(record) { pack_t ref; Rec r; memset((void*)&r, 0, sizeof r); ref << r; unsigned full = ref.size(); sym_expect("accepted"); sym_expect("refused"); pack_t b; fill(b, sym_pick("len", full - 3, full + 2)); Rec t; bool ok = attempt(b, t); CHECK(ok == (b.size() >= full), "a record is accepted exactly when all its bytes are there"); if (ok) CHECK(b.pos() == full, "consumed exactly what the value takes"); }
ENTRY(raw) { pack_t b; unsigned n = sym_pick("len", 0, 6); fill(b, n); unsigned long skip = sym<unsigned long>("skip"); sym_assume(skip <= n); b.seeko((long)skip); unsigned long want = sym<unsigned long>("want"); char out[8]; memset(out, 0x77, sizeof out); bool ok = true; sym_assume(want <= 8 || want > 1000); 
  try { if (want <= 8) b.unpackraw(out, want); else { b.unpackraw(out, want); } } catch (std::exception&) { ok = false; } CHECK(ok == (want <= n - skip), "raw reads succeed exactly when the data is there"); CHECK(b.pos() == skip + (ok ? want : 0), "position moves only on success"); sym_expect("refuse"); if (!ok) sym_reach("refuse"); }
ENTRY(basic) { pack_t b; unsigned n = sym_pick("len", 0, 9); fill(b, n); unsigned long skip = sym<unsigned long>("skip"); sym_assume(skip <= n); b.seeko((long)skip); unsigned long v = 0x1234; bool ok = true; try { b >> v; } catch (std::exception&) { ok = false; } CHECK(ok == (n - skip >= 8), "accepted exactly when complete"); if (!ok) CHECK(v == 0x1234 && b.pos() == skip, "refusal has no effect"); }
ENTRY(binstream_vec) { sym_expect("accepted"); sym_expect("refused"); pack_t b; fill(b, sym_pick("len", 0, NB)); BinStream bs(b); std::vector<int> t; bool ok = true; sym_alloc_limit(48); try { bs >> t; } catch (std::exception&) { ok = false; } sym_alloc_limit(1 << 20); CHECK(b.pos() <= b.size(), "position inside the data"); if (ok) CHECK(b.pos() == 8 + 4 * t.size(), "consumed exactly what the value takes"); sym_reach(ok ? "accepted" : "refused"); sym_observe(ok, "ok"); }
ENTRY(binstream_list) { sym_expect("accepted"); sym_expect("refused"); pack_t b; fill(b, sym_pick("len", 0, NB)); BinStream bs(b); std::list<short> t; bool ok = true; sym_alloc_limit(48); try { bs >> t; } catch (std::exception&) { ok = false; } sym_alloc_limit(1 << 20); CHECK(b.pos() <= b.size(), "position inside the data"); if (ok) CHECK(b.pos() == 8 + 2 * t.size(), "consumed exactly what the value takes"); sym_reach(ok ? "accepted" : "refused"); }
ENTRY(noleak) { long before = sym_live(); { pack_t b; fill(b, sym_pick("len", 8, NB)); std::vector<std::string> t; std::map<char, std::vector<char> > m; sym_alloc_limit(64); try { b >> t; b.reseto(); b >> m; } catch (std::exception&) {} sym_alloc_limit(1 << 20); } CHECK(sym_live() == (unsigned long)before, "no allocation outlives a refused unpack"); }
