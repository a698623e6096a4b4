// C10: XML serialisation round-trips every value through well-formed XML
//@ std: c++98
//@ cd: pack xml_pack typeName
//@ gen: vxml.h -> vxml.cd : -typeName -nodef -onbase -respect_private -i $SRC pack unpack xml_pack xml_unpack
//@ bounds: strings of up to 3 (quick) / 4 arbitrary bytes, every character, every bool/enum, integers of every type (16 bit ranges for wide ones), containers of up to 2 elements, plain and pretty-printed layout
//@ assume: floating point values are excluded (their precision is the output stream's)
#include "sym.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "pack_stl.h"
#include "vxml.h"
#include "vxml.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vx;
enum { NS = TIER ? 4 : 3 };
template <class T> void trip(T& x, T& y, bool pretty) { std::ostringstream o; xml_pack_t p(o); p.prettyPrint = pretty; xml_pack(p, "root", x); std::istringstream i(o.str()); xml_unpack_t u(i); xml_unpack(u, "root", y); }
template <class T> std::string text(T& x, bool pretty = false) { std::ostringstream o; xml_pack_t p(o); p.prettyPrint = pretty; xml_pack(p, "root", x); return o.str(); }
// independent reading of what was written: markup structure only
static void wellformed(const std::string& s) { std::vector<std::string> open; size_t i = 0; unsigned roots = 0; while (i < s.size()) { if (s[i] == '<') { size_t e = i + 1; while (e < s.size() && s[e] != '>' && s[e] != '<') e++; if (e >= s.size() || s[e] != '>') { CHECK(0, "tags are closed"); return; } std::string t = s.substr(i + 1, e - i - 1); if (t.size() && t[0] == '/') { if (open.empty() || open.back() != t.substr(1)) { CHECK(0, "end tags match"); return; } open.pop_back(); } else { if (open.empty()) roots++; open.push_back(t); } i = e + 1; } else if (s[i] == '&') { size_t e = i + 1; while (e < s.size() && s[e] != ';') e++; if (e >= s.size()) { CHECK(0, "references are terminated"); return; } std::string t = s.substr(i + 1, e - i - 1); bool ok = t == "amp" || t == "lt" || t == "gt" || t == "quot" || t == "apos"; if (t.size() > 1 && t[0] == '#') { ok = true; for (size_t k = 1; k < t.size(); k++) ok &= t[k] >= '0' && t[k] <= '9'; } CHECK(ok, "references are well-formed"); i = e + 1; } else { CHECK(s[i] != '>', "no stray markup"); if (open.empty()) CHECK(s[i] == '\n' || s[i] == ' ', "no text outside the root"); i++; } } CHECK(open.empty() && roots == 1, "one root element, everything closed"); }
ENTRY(strings) { std::string x = sym_string("s", sym_pick("n", 0, NS)), y = sym<bool>("dirty") ? "old" : ""; trip(x, y, false); CHECK(x == y, "string round trip"); }
ENTRY(strings_form) { std::string x = sym_string("s", sym_pick("n", 0, NS - 1)); wellformed(text(x)); }
ENTRY(nested_text) { Text x, y; x.s = sym_string("s", sym_pick("n", 0, 2)); x.t = sym_string("t", sym_pick("m", 0, 1)); x.c = sym<char>("c"); x.after = 42; y.s = y.t = "old"; y.c = 'z'; y.after = 0; bool pretty = sym<bool>("pretty"); trip(x, y, pretty); CHECK(x.s == y.s, "first string"); CHECK(x.t == y.t, "second string"); CHECK(x.c == y.c, "char"); CHECK(x.after == y.after, "what follows"); } //@@ fix:pretty=0..1 weight=4
template <class T> void chartrip() { T x = sym<T>("c"), y = sym<bool>("d") ? 'q' : 0; std::string t = text(x); trip(x, y, false); CHECK(x == y, "character round trip"); wellformed(t); }
ENTRY(chars) { chartrip<char>(); chartrip<signed char>(); chartrip<unsigned char>(); }
template <class T> void inttrip(T x) { T y = T(x ^ 5); trip(x, y, false); CHECK(x == y, "integer round trip"); }
ENTRY(ints) { unsigned short u = sym<unsigned short>("u"); short s = (short)u; switch (sym_pick("k", 0, 7)) { case 0: inttrip<short>(s); break; case 1: inttrip<unsigned short>(u); break; case 2: inttrip<int>(s); break; case 3: inttrip<unsigned>(u); break; case 4: inttrip<long>(s); break; case 5: inttrip<unsigned long>(0xffffffffffffff00UL | (u & 255)); break; case 6: inttrip<long long>((long)0x8000000000000000UL + (u & 255)); break; case 7: inttrip<int>(2147483647 - (u & 255)); break; } } //@@ fix:k=0..7
ENTRY(bools_enums) { bool b = sym<bool>("b"), c = !b; trip(b, c, sym<bool>("pretty")); CHECK(b == c, "bool round trip"); unsigned k = sym_pick("e", 0, 2); Col e = k == 0 ? red : k == 1 ? green : blue, f = e == red ? green : red; trip(e, f, sym<bool>("pretty")); CHECK(e == f, "enum round trip"); }
// documents laid out by someone else
template <class T> void rd(const std::string& d, T& y) { std::istringstream i(d); xml_unpack_t u(i); xml_unpack(u, "root", y); }
ENTRY(other_layout) { static const char* sp[] = {"", " ", "\n", "\t  "}; static const char* em[] = {"<s/>", "<s></s>", "<s />", "<s ></s >"}; std::string l = sp[sym_pick("l", 0, 3)], t = sp[sym_pick("t", 0, 3)]; unsigned k = sym_pick("e", 0, 2); Col e = green; static const char* nm[] = {"red", "green", "blue"}; rd("<root>" + l + nm[k] + t + "</root>", e); CHECK(e == (k == 0 ? red : k == 1 ? green : blue), "enum with white space around it");
  Text y; y.s = y.t = "old"; y.c = 'z'; y.after = 0; unsigned m = sym_pick("m", 0, 3); char c = "<&x"[sym_pick("c", 0, 2)]; rd(std::string("<root>") + l + em[m] + t + "<after>" + l + "42" + t + "</after>" + l + "<c>" + (c == '<' ? "&lt;" : c == '&' ? "&#38;" : "x") + "</c><t>u<!-- no -->v</t></root>", y); CHECK(y.s == "", "an empty element is an empty string"); CHECK(y.t == "uv" && y.c == c && y.after == 42, "in any order"); }
ENTRY(record) { Rec x, y; memset((void*)&x, 0, sizeof x); memset((void*)&y, 1, sizeof y); y.b = y.in.b = y.ia[0].b = y.ia[1].b = false; y.e = green; y.p = Priv(); x.base1 = sym<signed char>("base"); x.i = 7; x.u = sym_range("u", 0, 99); x.s = -3; x.us = 65535; x.l = -1; x.ul = ~0UL; x.b = sym<bool>("b"); x.e = sym<bool>("e") ? blue : red; x.in.a = 12; x.in.b = sym<bool>("ib"); x.arr[0] = 5; x.arr[1] = sym_range("a1", 0, 9); x.ia[0].a = 1; x.ia[1].a = 2; x.ia[0].b = 0; x.ia[1].b = sym<bool>("ib1"); x.p.shown = 9; bool pretty = sym<bool>("pretty"); 
  trip(x, y, pretty); CHECK(x.base1 == y.base1, "base"); CHECK(x.i == y.i && x.u == y.u && x.s == y.s && x.us == y.us && x.l == y.l && x.ul == y.ul, "integers"); CHECK(x.b == y.b && x.e == y.e, "bool and enum"); CHECK(x.in.a == y.in.a && x.in.b == y.in.b, "member object"); CHECK(x.arr[0] == y.arr[0] && x.arr[1] == y.arr[1], "array"); CHECK(x.ia[0].a == y.ia[0].a && x.ia[1].a == y.ia[1].a && x.ia[0].b == y.ia[0].b && x.ia[1].b == y.ia[1].b, "array of objects"); CHECK(y.p.shown == 9 && y.p.get() == 7, "only public members travel"); } //@@ fix:pretty=0..1
ENTRY(containers) { Cont x, y; for (unsigned i = 0, n = sym_pick("nv", 0, 2); i < n; i++) x.v.push_back(sym_range("v", 0, 9)); for (unsigned i = 0, n = sym_pick("ns", 0, 2); i < n; i++) x.vs.push_back(i ? "" : std::string("<a")); for (unsigned i = 0, n = sym_pick("nl", 0, 1); i < n; i++) { In t = {3, sym<bool>("lb")}; x.li.push_back(t); } if (sym<bool>("hs")) x.st.insert(sym_range("k", 0, 9)); if (sym<bool>("hm")) { x.m[sym_range("mk", 0, 9)] = 4; x.m[100] = 5; } unsigned nn = sym_pick("nn", 0, 2); x.vv.resize(nn); for (unsigned i = 0; i < nn; i++) x.vv[i].assign(i + sym_pick("inner", 0, 1), 8); x.mark = 77; 
  y.v.assign(1, 9); y.vs.assign(3, "old"); y.st.insert(5); y.m[5] = 6; y.vv.resize(1); y.mark = 0; bool pretty = sym<bool>("pretty"); trip(x, y, pretty); CHECK(x.v == y.v, "vector"); CHECK(x.vs == y.vs, "strings"); CHECK(x.li.size() == y.li.size() && (x.li.empty() || (x.li.back().b == y.li.back().b && y.li.back().a == 3)), "list of objects"); CHECK(x.st == y.st, "set"); CHECK(x.m == y.m, "map"); CHECK(x.vv == y.vv, "vector of vectors"); CHECK(y.mark == 77, "what follows"); } //@@ fix:pretty=0..1 fix:nv=0..2
static bool tagAt(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
ENTRY(missing) { // members whose tag is absent keep their value; unknown tags are ignored
  bool hi = sym<bool>("i"), hs = sym<bool>("s"), hb = sym<bool>("b"), he = sym<bool>("e"), hv = sym<bool>("v"), hx = sym<bool>("x"); std::string d = "<root>"; if (hi) d += "<u>5</u>"; if (hx) d += "<alien><u>9</u><i>8</i></alien>"; if (hs) d += "<in><a>4</a></in>"; if (hb) d += "<b>true</b>"; if (he) d += "<e>green</e>"; if (hv) d += "<arr><int>1</int></arr>"; d += "</root>"; std::istringstream i(d); xml_unpack_t u(i); Rec y; y.u = 77; y.i = 66; y.in.a = 55; y.in.b = true; y.b = false; y.e = blue; y.arr[0] = 44; y.arr[1] = 33; xml_unpack(u, "root", y);
  CHECK(y.u == (hi ? 5 : 77) && y.i == 66, "integers"); CHECK(y.in.a == (hs ? 4 : 55) && y.in.b, "member object"); CHECK(y.b == hb, "bool"); CHECK(y.e == (he ? green : blue), "enum"); CHECK(y.arr[0] == (hv ? 1 : 44) && y.arr[1] == 33, "array");
  u.missingException = true; bool t = false; int z = 1; try { u.unpack("root.u", z); } catch (xml_pack_error&) { t = true; } CHECK(t == !hi && z == (hi ? 5 : 1), "absence is reported on request"); }
ENTRY(missing_containers) { bool h[4]; std::string d = "<root>"; for (int k = 0; k < 4; k++) h[k] = sym<bool>("h"); if (h[0]) d += "<v><int>3</int></v>"; if (h[1]) d += "<st></st>"; if (h[2]) d += "<m/>"; if (h[3]) d += "<mark>6</mark>"; d += "</root>"; std::istringstream i(d); xml_unpack_t u(i); Cont y; y.v.assign(2, 1); y.st.insert(4); y.m[1] = 2; y.vs.push_back("x"); y.mark = 5; xml_unpack(u, "root", y); CHECK(h[0] ? y.v.size() == 1 && y.v[0] == 3 : y.v.size() == 2, "vector"); CHECK(y.st.size() == (h[1] ? 0 : 1), "set"); CHECK(y.m.size() == (h[2] ? 0 : 1), "map"); CHECK(y.vs.size() == 1 && y.vs[0] == "x", "strings"); CHECK(y.mark == (h[3] ? 6 : 5), "int"); }
