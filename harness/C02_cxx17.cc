// C02, second unit: hostile data for the C++11/17 types and smart pointers
//@ std: c++17
//@ cd: pack typeName
//@ gen: v17.h -> v17.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: every byte string of up to 16/24 bytes; allocations above 240 bytes fail with bad_alloc
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include <optional>
#include "v17.h"
#include "v17.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
enum { NB = TIER ? 24 : 16 };
static void fill(pack_t& b, unsigned n) { std::vector<char> d(n + 1); for (unsigned i = 0; i < n; i++) d[i] = sym<char>("byte"); b.packraw(&d[0], n); }
// the target sits between two guards, and nothing may be left allocated
template <class T> void hostile(unsigned lo, unsigned hi = NB) {
  sym_expect("accepted"); sym_expect("refused"); long before = sym_live(); { pack_t b; fill(b, sym_pick("len", lo, hi)); struct { int g0[2]; T t; int g1[2]; } s{{11, 12}, T(), {13, 14}}; bool ok = true; sym_alloc_limit(240);
  try { unpack(b, "", s.t); } catch (std::exception&) { ok = false; } sym_alloc_limit(1 << 20);
  CHECK(s.g0[0] == 11 && s.g0[1] == 12 && s.g1[0] == 13 && s.g1[1] == 14, "neighbours untouched"); CHECK(b.pos() <= b.size(), "the read position stays inside the data"); sym_observe(ok, "ok"); sym_observe(b.pos(), "pos"); if (ok) sym_reach("accepted"); else sym_reach("refused"); } CHECK(sym_live() == before, "nothing leaked"); }
ENTRY(array_int) { hostile<std::array<int, 2>>(0, TIER ? 28 : 24); }
ENTRY(array_char) { hostile<std::array<char, 3>>(0); }
ENTRY(array_str) { hostile<std::array<std::string, 1>>(0, TIER ? 20 : 18); }
ENTRY(umap) { hostile<std::unordered_map<char, short>>(0); }
ENTRY(uset) { hostile<std::unordered_set<char>>(0, TIER ? 11 : 10); }
ENTRY(multimap) { hostile<std::multimap<char, char>>(0); }
ENTRY(deque) { hostile<std::deque<short>>(0); }
ENTRY(tuple) { hostile<std::tuple<int, char, std::string>>(0); }
ENTRY(shared) { hostile<std::shared_ptr<int>>(0, 8); }
ENTRY(unique) { hostile<std::unique_ptr<std::string>>(0); }
ENTRY(vec_shared) { hostile<std::vector<std::shared_ptr<char>>>(0); }
