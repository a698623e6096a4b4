// C10: tuples, arrays of containers and arrays of any rank
//@ std: c++17
//@ cd: pack xml_pack typeName
//@ gen: vxptr17.h -> vxptr17.cd : -typeName -nodef -onbase -respect_private -i $SRC xml_pack xml_unpack
//@ gen: vxarr.h -> vxarr.cd : -typeName -nodef -onbase -respect_private -i $SRC xml_pack xml_unpack
#include "sym.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "vxptr17.h"
#include "vxptr17.cd"
#include "vxarr.h"
#include "vxarr.cd"
#include "classdesc_epilogue.h"
#include <sstream>
using namespace classdesc; using namespace vq;
template <class T> void trip(T& x, T& y, bool pretty) { std::ostringstream o; xml_pack_t p(o); p.prettyPrint = pretty; xml_pack(p, "root", x); std::istringstream i(o.str()); xml_unpack_t u(i); xml_unpack(u, "root", y); }
template <class T> std::string text(T& x) { std::ostringstream o; xml_pack_t p(o); xml_pack(p, "root", x); return o.str(); }
static void wellformed(const std::string& s) { std::vector<std::string> open; size_t i = 0; unsigned roots = 0; while (i < s.size()) { if (s[i] == '<') { size_t e = i + 1; while (e < s.size() && s[e] != '>' && s[e] != '<') e++; if (e >= s.size() || s[e] != '>') { CHECK(0, "tags are closed"); return; } std::string t = s.substr(i + 1, e - i - 1); if (t.size() && t[0] == '/') { if (open.empty() || open.back() != t.substr(1)) { CHECK(0, "end tags match"); return; } open.pop_back(); } else { if (open.empty()) roots++; open.push_back(t); } i = e + 1; } else if (s[i] == '&') { size_t e = i + 1; while (e < s.size() && s[e] != ';') e++; if (e >= s.size()) { CHECK(0, "references are terminated"); return; } std::string t = s.substr(i + 1, e - i - 1); bool ok = t == "amp" || t == "lt" || t == "gt" || t == "quot" || t == "apos"; if (t.size() > 1 && t[0] == '#') { ok = true; for (size_t k = 1; k < t.size(); k++) ok &= t[k] >= '0' && t[k] <= '9'; } CHECK(ok, "references are well-formed"); i = e + 1; } else { CHECK(s[i] != '>', "no stray markup"); if (open.empty()) CHECK(s[i] == '\n' || s[i] == ' ', "no text outside the root"); i++; } } CHECK(open.empty() && roots == 1, "one root element, everything closed"); }
ENTRY(tuples) { Tup x, y; x.after = 5; y.after = 0; x.t = std::make_tuple(sym_range("a", 0, 9), sym_string("s", sym_pick("n", 0, 1)), Plain{3, "p"}, sym_range("b", 0, 9), sym<bool>("c")); y.t = std::make_tuple(77, "old", Plain{7, "q"}, 78, false); x.same = std::make_tuple(short(sym_range("d", 0, 9)), short(sym_range("e", 0, 9))); y.same = std::make_tuple(short(70), short(71)); trip(x, y, false);
  CHECK(std::get<0>(x.t) == std::get<0>(y.t) && std::get<1>(x.t) == std::get<1>(y.t) && std::get<3>(x.t) == std::get<3>(y.t) && std::get<4>(x.t) == std::get<4>(y.t), "elements of differing types"); CHECK(std::get<2>(y.t).v == 3 && std::get<2>(y.t).s == "p", "object element"); CHECK(x.same == y.same, "elements of one type"); CHECK(y.after == 5, "what follows"); } //@@ weight=2
ENTRY(tuples_of_containers) { Tup x, y; x.after = 5; unsigned n = sym_pick("n", 0, 2), m = sym_pick("m", 0, 2); std::get<0>(x.v).assign(n, sym_range("a", 0, 9)); std::get<1>(x.v).assign(m, 4); std::get<2>(x.v) = 8; std::get<0>(y.v).assign(1, 9); std::get<2>(y.v) = 0; trip(x, y, false); CHECK(x.v == y.v, "containers within tuples"); wellformed(text(x)); CHECK(y.after == 5, "what follows"); }
ENTRY(arrays_of_containers) { Arr x, y; for (unsigned i = 0; i < 2; i++) { x.av[i].assign(sym_pick("n", 0, 2), sym_range("v", 0, 9)); y.av[i].assign(1, 7); x.as[i] = sym_string("s", sym_pick("m", 0, 1)); y.as[i] = "old"; } trip(x, y, false); for (unsigned i = 0; i < 2; i++) CHECK(x.av[i] == y.av[i] && x.as[i] == y.as[i], "elements"); wellformed(text(x)); }
ENTRY(ranks) { va::Ranks x, y; memset((void*)&x, 0, sizeof x); memset((void*)&y, 1, sizeof y); y.b[0][0] = y.b[0][1] = y.b[1][0] = y.b[1][1] = false; for (unsigned i = 0; i < 24; i++) (&x.r4[0][0][0][0])[i] = i + 3; for (unsigned i = 0; i < 12; i++) (&x.r3[0][0][0])[i] = i + 1; for (unsigned i = 0; i < 6; i++) (&x.r2[0][0].a)[i] = i + 100; x.r3[1][sym_pick("j", 0, 1)][2] = sym_range("v", 0, 99); for (unsigned i = 0; i < 4; i++) (&x.b[0][0])[i] = sym<bool>("b"); x.after = 9; trip(x, y, sym<bool>("pretty")); CHECK(memcmp(x.r3, y.r3, sizeof x.r3) == 0, "rank 3"); CHECK(memcmp(x.r4, y.r4, sizeof x.r4) == 0, "rank 4"); CHECK(memcmp(x.r2, y.r2, sizeof x.r2) == 0, "rank 2 of objects"); CHECK(memcmp(x.b, y.b, sizeof x.b) == 0, "rank 2 of bools"); CHECK(y.after == 9, "what follows"); }
ENTRY(ranks_partial) { // missing array elements keep their values
  va::Ranks y; for (unsigned i = 0; i < 12; i++) (&y.r3[0][0][0])[i] = 50 + i; std::string d = "<root><r3>"; unsigned n = sym_pick("n", 0, 12); for (unsigned i = 0; i < n; i++) d += "<int>7</int>"; d += "</r3></root>"; std::istringstream i(d); xml_unpack_t u(i); xml_unpack(u, "root", y); for (unsigned k = 0; k < 12; k++) CHECK((&y.r3[0][0][0])[k] == (k < n ? 7 : 50 + (int)k), "element"); }
