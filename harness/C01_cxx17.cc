// C01, C++17: unordered containers, arrays, tuples, scoped enums, move-only buffers
//@ std: c++17
//@ cd: pack
//@ gen: v17.h -> v17.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: containers of up to 2 (quick) / 3 elements with arbitrary contents
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "v17.h"
#include "v17.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace v17;
enum { NC = TIER ? 3 : 2 };
#define RT(T, x, msg) { pack_t b; b << x; T y{}; b >> y; CHECK(x == y, msg); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(unordered_map) { using T = std::unordered_map<int, short>; T x; unsigned n = sym_pick("n", 0, NC); for (unsigned i = 0; i < n; i++) x[sym_pick("k", 0, 3)] = sym<short>("v"); pack_t b; b << x; T y; y[77] = 1; b >> y; CHECK(x == y, "unordered_map"); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(unordered_set) { using T = std::unordered_set<int>; T x; unsigned n = sym_pick("n", 0, NC); for (unsigned i = 0; i < n; i++) x.insert(sym_pick("k", 0, 3)); RT(T, x, "unordered_set") }
ENTRY(unordered_multi) { using T = std::unordered_multimap<int, char>; T x; unsigned n = sym_pick("n", 0, NC); for (unsigned i = 0; i < n; i++) x.insert({int(sym_pick("k", 0, 2)), sym<char>("v")}); RT(T, x, "unordered_multimap") }
ENTRY(array) { using T = std::array<int, 3>; T x; for (auto& i : x) i = sym<int>("e"); RT(T, x, "array") std::array<std::string, 2> s{sym_string("s", 2), "z"}; using S = std::array<std::string, 2>; RT(S, s, "array of strings") }
ENTRY(tuples) { using T = std::tuple<int, short, std::string>; T x{sym<int>("a"), sym<short>("b"), sym_string("s", 1)}; RT(T, x, "tuple") using U = std::tuple<char>; U u{sym<char>("c")}; RT(U, u, "1-tuple") using W = std::tuple<int, std::tuple<char, long>>; W w{sym<int>("d"), {sym<char>("e"), sym<long>("f")}}; RT(W, w, "nested tuple") }
ENTRY(record17) { R17 x{}, y{}; int k = sym_pick("k", 0, 2); x.k = Kind(k); x.s = Small(sym_pick("s", 0, 2) * 100); x.a = {sym<int>("a0"), sym<int>("a1")}; x.um["q"] = sym<int>("um"); x.in.q = sym<int>("in"); x.bits = sym<long long>("bits"); pack_t b; b << x; b >> y; CHECK(x.k == y.k && x.s == y.s && x.a == y.a && x.um == y.um && x.in.q == y.in.q && x.bits == y.bits, "record with C++11 members"); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(enumclass) { Kind k = Kind(sym<int>("k")), l = Kind::a; pack_t b; b << k; b >> l; CHECK(k == l && b.pos() == b.size(), "scoped enum"); Small s = Small(sym<unsigned char>("s")), t = Small::x; b << s; b >> t; CHECK(s == t && b.pos() == b.size(), "scoped enum with narrow base"); Wide w = Wide(sym<long long>("w")), z = Wide::lo; b << w; b >> z; CHECK(b.pos() == b.size(), "exact consumption"); CHECK(w == z, "scoped enum with wide base"); }
