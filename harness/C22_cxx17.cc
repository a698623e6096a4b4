// C22: members of C++11 and later types, through JSON
//@ std: c++17
//@ cd: pack json_pack xml_pack xsd_generate typeName
//@ gen: vjs17.h -> vjs17.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ bounds: std::array, tuple, unique_ptr, scoped and sized enums, unordered maps of up to 2 entries, maps by string of up to 2 entries, callables and JSON values as members
#include "sym.h"
#include "json_pack_base.h"
#include "stringKeyMap.h"
#include "vjs17.h"
#include "vjs17.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vj; using json5_parser::mValue; using json5_parser::mArray;
template <class T> static void trip(T& x, T& y) { json_pack_t j; switch (sym_pick("how", 0, 2)) { case 0: j << x; j >> y; break; case 1: json_pack(j, ".n", x); json_unpack(j, ".n", y); break; case 2: json(y, json(x)); break; } }
static std::string word(unsigned n) { return std::string(n, 'w'); }
ENTRY(unique) { Uniq x, y; x.before = 3; x.after = 4; if (sym<bool>("p")) x.p.reset(new Plain{sym<signed char>("v"), "s"}); if (sym<bool>("i")) x.i.reset(new int(sym<signed char>("iv"))); if (sym<bool>("s")) x.s.reset(new std::string(word(sym_pick("n", 0, 1)))); if (sym<bool>("used")) { y.p.reset(new Plain{9, "old"}); y.i.reset(new int(7)); y.s.reset(new std::string("old")); } trip(x, y); CHECK(!x.p == !y.p && !x.i == !y.i && !x.s == !y.s, "null stays null, others do not"); CHECK((!x.p || (x.p->v == y.p->v && y.p->s == "s")) && (!x.i || *x.i == *y.i) && (!x.s || *x.s == *y.s), "equal targets"); CHECK(y.before == 3 && y.after == 4, "other members"); }
ENTRY(tuples) { Tup x{3, {sym<signed char>("a"), word(sym_pick("n", 0, 1)), Plain{sym<signed char>("v"), "p"}, sym<bool>("b")}, {short(sym<signed char>("c"))}, 4}, y{0, {77, "old", Plain{8, "q"}, true}, {71}, 0}; trip(x, y); CHECK(y.before == 3 && y.after == 4, "other members"); CHECK(std::get<0>(x.t) == std::get<0>(y.t) && std::get<1>(x.t) == std::get<1>(y.t) && std::get<3>(x.t) == std::get<3>(y.t), "elements"); CHECK(std::get<2>(x.t).v == std::get<2>(y.t).v && std::get<2>(y.t).s == "p", "object"); CHECK(x.one == y.one, "one element"); }
ENTRY(root_tuple) { std::tuple<int, std::string, bool> x{sym<int>("a"), word(sym_pick("n", 0, 1)), sym<bool>("b")}, y{5, "old", true}; json_pack_t j; j << x; CHECK(j.type() == RESTProcessType::array && j.array().size() == 3 && j.array()[0].get_int() == std::get<0>(x), "an array"); j >> y; CHECK(x == y, "equal"); CHECK(j.array().size() == 3, "left as it was"); }
ENTRY(root_tuple_short) { std::tuple<int, std::string, bool> y{5, "old", true}; json_pack_t j{mArray()}; unsigned n = sym_pick("n", 0, 4); for (unsigned i = 0; i < n; i++) j.get_array().push_back(i == 0 ? mValue(sym<int>("v")) : i == 1 ? mValue("new") : mValue(false)); if (sym<bool>("no array")) j = json_pack_t(mValue(sym<int>("z"))); try { j >> y; } catch (const std::exception&) {} CHECK(n > 2 || std::get<2>(y), "no elements from nowhere"); }
ENTRY(std_arrays) { Arr x{{int(sym_range("a", 0, 9)), 2, -3}, {Plain{5, "p"}, Plain{4, "q"}}, {{{bool(sym_pick("b", 0, 1)), true}, {false, bool(sym_pick("b", 0, 1))}}}, {{1, 6}, {3, 4}}, sym_pick("e", 0, 1) ? Scoped::sa : Scoped::sb, sym_pick("f", 0, 1) ? x0 : x200, {Scoped::sb, Scoped::sa}, {}, 9}, y{{7, 7, 7}, {Plain{7, "old"}, Plain{7, "old"}}, {{{true, true}, {true, true}}}, {{7, 7}, {7, 7}}, Scoped::sa, x0, {Scoped::sa, Scoped::sb}, {}, 0}; y.m[3] = 3; for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) x.m[int(i)] = 5 + i; trip(x, y); CHECK(x.a == y.a && x.b == y.b && x.ca[0] == y.ca[0] && x.ca[1] == y.ca[1], "arrays"); for (int i = 0; i < 2; i++) CHECK(x.p[i].v == y.p[i].v && x.p[i].s == y.p[i].s, "objects"); CHECK(x.e == y.e && x.f == y.f && x.ea[0] == y.ea[0] && x.ea[1] == y.ea[1], "enums"); CHECK(x.m == y.m, "unordered map"); CHECK(y.after == 9, "other members"); }
ENTRY(callables) { Func x{3, [](int i) { return i + 1; }, 4}, y{0, [](int i) { return i - 1; }, 0}; trip(x, y); CHECK(y.before == 3 && y.after == 4, "other members"); CHECK(y.f(5) == 4, "callables are left alone"); }
ENTRY(keyed) { Keyed x, y; x.before = 3; x.after = 4; static const char* names[] = {"k", "a.b", "", ".x"}; for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) { std::string k = i ? "second" : names[sym_pick("name", 0, TIER ? 3 : 0)]; x.m[k] = sym<signed char>("v"); x.p[k] = Plain{sym<signed char>("w"), "p"}; x.v[k].assign(i + 1, 6); } y.m["old"] = 1; y.p["k"] = Plain{1, "old"}; trip(x, y); CHECK(y.before == 3 && y.after == 4, "other members"); CHECK(x.m == y.m && x.v == y.v && x.p.size() == y.p.size(), "equal"); for (auto& i : x.p) CHECK(y.p.count(i.first) && y.p[i.first].v == i.second.v && y.p[i.first].s == "p", "objects"); }
ENTRY(keyed_form) { StringKeyMap<int> m, w; m["k"] = sym<int>("v"); m["l"] = 2; json_pack_t j; j << m; CHECK(j.type() == RESTProcessType::object && j.get_obj().size() == 2 && j.get_obj()["k"].get_int() == m["k"] && j.get_obj()["l"].get_int() == 2, "an object with an entry for each key"); w["old"] = 2; j >> w; CHECK(w == m, "equal"); }
ENTRY(values) { Any x, y; x.before = 3; x.after = 4; switch (sym_pick("k", 0, 3)) { case 0: x.j = json_pack_t(mValue(int(sym<signed char>("v")))); break; case 1: x.j = json_pack_t(std::string("txt")); break; case 2: { json_pack(x.j, "", Plain{5, "p"}); break; } case 3: x.j = json_pack_t(mArray(2)); break; } trip(x, y); CHECK(y.before == 3 && y.after == 4, "other members"); CHECK(static_cast<mValue&>(x.j) == static_cast<mValue&>(y.j), "equal"); }
