// C21: the generated XML schema is a valid schema of the type, and accepts every document written for it
//@ std: c++98
//@ cd: pack xml_pack xsd_generate typeName
//@ gen: vxsd.h -> vxsd.cd : -typeName -nodef -onbase -respect_private -i $SRC pack unpack xml_pack xml_unpack xsd_generate
//@ bounds: all values of members of every basic type (integers: 16 bits, and the extremes), strings of up to 2 characters, containers of up to 2 elements, arrays of up to 5 dimensions, plain and pretty-printed layout
//@ assume: the form of floating point values is not examined
//@ assume: characters are those XML can represent
#include "sym.h"
#include "pack_base.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "xsd_generate_base.h"
#include "vxsd.h"
#include "vxsd.cd"
#include "classdesc_epilogue.h"
#include "vxsdcheck.h"
using namespace classdesc; using namespace vs; using inner::In; using inner::TT;
template <class T> static std::string schema(const T& x) { xsd_generate_t g; xsd_generate(g, "root", x); std::ostringstream o; g.output(o, "urn:x"); return o.str(); }
template <class T> static Schema schemaOf(const T& x, const char* type) { Schema s; bool ok = s.parse(schema(x)); if (!ok) sym_puts(s.bad.data(), s.bad.size()); CHECK(ok, "a valid schema"); CHECK(s.root == "root" && s.rootType == std::string("tns:__vs__") + type && s.ns == "urn:x", "root element"); return s; }
template <class T> static void accepted(Schema& s, T& x, bool pretty) { std::ostringstream o; { xml_pack_t p(o, "urn:x"); p.prettyPrint = pretty; xml_pack(p, "root", x); } bool ok = s.valid(o.str()); if (!ok) sym_puts(s.bad.data(), s.bad.size()); CHECK(ok, "what is written is valid"); }
static inner::E en() { unsigned k = sym_pick("e", 0, 2); return k == 0 ? inner::u : k == 1 ? inner::v : inner::w; }
static char chr(const char* n) { char c = sym<char>(n); sym_assume(c >= 32); return c; }
static std::string str(const char* n) { std::string s(sym_pick("len", 0, 2), ' '); for (size_t i = 0; i < s.size(); i++) s[i] = chr(n); return s; }
static int digit(const char* n) { return sym_range(n, 0, 9); }
static In in() { In i; i.x = digit("x"); i.e = en(); return i; }
static In in0() { In i; i.x = -7; i.e = inner::w; return i; }
static void filled(inner::E (&a)[1][2][1][1][2]) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) a[0][i][0][0][j] = j ? inner::v : inner::w; }
#define IS(n, e) CHECK(s.show(n) == e, "members of " n)
ENTRY(basic) { Basic b = Basic(); Schema s = schemaOf(b, "Basic"); IS("__vs__Basic", "b:xs:boolean c:xs:string sc:xs:string uc:xs:string s:xs:short us:xs:unsignedShort i:xs:int u:xs:unsignedInt l:xs:long ul:xs:unsignedLong ll:xs:long ull:xs:unsignedLong f:xs:float d:xs:double t:xs:string e:tns:__vs__inner__E"); IS("__vs__inner__E", "u|v|w");
  unsigned short u = sym<unsigned short>("u"); short i = short(u); unsigned k = sym_pick("k", 0, 8); b.b = sym<bool>("b"); b.c = b.uc = b.sc = 'c'; b.s = k == 0 ? i : -32768; b.us = k == 1 ? u : 65535; b.i = k == 2 ? i : -2147483647 - 1; b.u = k == 3 ? u : 4294967295u; b.l = k == 4 ? i : 9223372036854775807L; b.ul = k == 5 ? u : ~0UL; b.ll = k == 6 ? i : -9223372036854775807LL - 1; b.ull = k == 7 ? u : ~0ULL; b.e = k == 8 ? en() : inner::u; b.t = "x"; accepted(s, b, k == 8); } //@@ fix:k=0..8
ENTRY(texts) { Basic b = Basic(); Schema s = schemaOf(b, "Basic"); b.e = inner::v; b.c = chr("c"); b.sc = b.uc = 'x'; b.t = str("t"); accepted(s, b, false); }
ENTRY(arrays) { Arrays a = Arrays(); Schema s = schemaOf(a, "Arrays"); IS("__vs__Arrays", "a:tns:__builtin_array_int_3 m:tns:__builtin_array_short_2_3 ai:tns:__builtin_array___vs__inner__In_2 ae:tns:__builtin_array___vs__inner__E_2 as:tns:__builtin_array_std__string_2 at:tns:__builtin_array___vs__inner__TT__int___int____1 av:tns:__builtin_array_std__vector_int__2 ac:tns:__builtin_array_char_2 ab:tns:__builtin_array_bool_1_1 a3:tns:__builtin_array_int_1_2_2 a4:tns:__builtin_array_short_1_1_2_2 a5:tns:__builtin_array___vs__inner__E_1_2_1_1_2 mark:xs:int"); IS("__builtin_array_short_2_3", "short:xs:short 6"); IS("__builtin_array_short_1_1_2_2", "short:xs:short 4"); IS("__builtin_array___vs__inner__In_2", "In:tns:__vs__inner__In 2"); IS("__vs__inner__In", "x:xs:int e:tns:__vs__inner__E"); IS("__builtin_array_std__string_2", "string:xs:string 2");
  for (int i = 0; i < 2; i++) { a.ai[i].x = digit("x"); a.ai[i].e = i ? inner::v : en(); a.ae[i] = i ? en() : inner::u; a.as[i] = std::string(i, chr("c")); a.ac[i] = 'x'; } for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) a.av[1].push_back(digit("v")); a.ab[0][0] = sym<bool>("b"); filled(a.a5); a.m[1][2] = -digit("m"); accepted(s, a, sym<bool>("pretty")); }
ENTRY(inheritance) { switch (sym_pick("k", 0, 2)) {
  case 0: { Derived d = Derived(); Schema s = schemaOf(d, "Derived"); IS("__vs__Derived", "base___vs__Base:tns:__vs__Base own:xs:int in:tns:__vs__inner__In last:xs:int"); IS("__vs__Base", "b:xs:int"); d.b = digit("b"); d.in = in(); accepted(s, d, sym<bool>("pretty")); break; }
  case 1: { Derived2 d = Derived2(); Schema s = schemaOf(d, "Derived2"); IS("__vs__Derived2", "base___vs__Derived:tns:__vs__Derived vd:tns:std__vector___vs__Derived_ n:xs:short"); IS("__vs__Derived", "base___vs__Base:tns:__vs__Base own:xs:int in:tns:__vs__inner__In last:xs:int"); d.in = in(); d.vd.resize(sym_pick("n", 0, 2)); for (size_t i = 0; i < d.vd.size(); i++) { d.vd[i].own = digit("o"); d.vd[i].in = in0(); } accepted(s, d, sym<bool>("pretty")); break; }
  case 2: { Multi d = Multi(); Schema s = schemaOf(d, "Multi"); IS("__vs__Multi", "base___vs__Derived:tns:__vs__Derived base___vs__B3:tns:__vs__B3 own:xs:int"); IS("__vs__B3", "b3:xs:boolean"); d.in = in(); d.b3 = sym<bool>("b3"); accepted(s, d, sym<bool>("pretty")); break; } } }
ENTRY(sequences) { Seqs q; Schema s = schemaOf(q, "Seqs"); IS("__vs__Seqs", "v:tns:std__vector_int_ vs:tns:std__list_std__string_ vi:tns:std__vector___vs__inner__In_ vv:tns:std__vector_std__vector_int__ st:tns:std__set___vs__inner__E_ vb:tns:std__vector_bool_ va:tns:std__vector___vs__Arrays_ dd:tns:std__deque_std__deque___vs__inner__In__ vm:tns:std__vector___vs__Multi_"); IS("std__vector_std__vector_int__", "vector:tns:std__vector_int_ *"); IS("std__list_std__string_", "string:xs:string *"); IS("std__vector___vs__Multi_", "Multi:tns:__vs__Multi *");
  unsigned k = sym_pick("k", 0, 8), n = sym_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) switch (k) { case 0: q.v.push_back(digit("v")); break; case 1: q.vs.push_back(std::string(sym_pick("len", 0, 2), 's')); break; case 2: q.vi.push_back(in()); break; case 3: q.vv.push_back(std::vector<int>(sym_pick("m", 0, 2), digit("v"))); break; case 4: q.st.insert(en()); break; case 5: q.vb.push_back(sym<bool>("b")); break; case 6: { Arrays a = Arrays(); a.ai[0] = a.ai[1] = in0(); a.ae[0] = a.ae[1] = inner::v; a.ac[0] = a.ac[1] = 'x'; a.a[2] = digit("a"); filled(a.a5); q.va.push_back(a); break; } case 7: q.dd.push_back(std::deque<In>(sym_pick("m", 0, 1), in0())); break; case 8: { Multi m = Multi(); m.in = in0(); m.b3 = sym<bool>("b"); q.vm.push_back(m); break; } } accepted(s, q, sym<bool>("pretty")); }
ENTRY(maps) { Maps m; Schema s = schemaOf(m, "Maps"); IS("__vs__Maps", "m:tns:std__map_int_int_ mi:tns:std__map_std__string___vs__inner__In_ me:tns:std__map___vs__inner__E_std__vector___vs__inner__In__ p:tns:std__pair_bool___vs__inner__In_ vp:tns:std__vector_std__pair_std__string_bool__ mm:tns:std__map_int_std__map_int___vs__inner__E__ ma:tns:__builtin_array_std__map_int_bool__2"); IS("std__map_int_int_", "pair:tns:std__pair_const_int_int_ *"); m.p.first = sym<bool>("b"); m.p.second = in();
  unsigned k = sym_pick("k", 0, 5), n = sym_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) switch (k) { case 0: m.m[i] = digit("v"); break; case 1: m.mi[std::string(i, 'k')] = in0(); break; case 2: m.me[i ? inner::v : inner::u] = std::vector<In>(i, in0()); break; case 3: m.vp.push_back(std::make_pair(std::string(i, 's'), sym<bool>("b"))); break; case 4: m.mm[i][digit("k")] = en(); break; case 5: m.ma[i][digit("k")] = sym<bool>("b"); break; } accepted(s, m, sym<bool>("pretty")); }
ENTRY(odd) { Odd o; Schema s = schemaOf(o, "Odd"); IS("__vs__Odd", "p:tns:__vs__Priv ci:xs:int n:tns:__builtin_array___vs__Odd__N_2 mark:xs:int"); o.n[0].q = digit("q"); o.n[1].q = 4; accepted(s, o, sym<bool>("pretty")); }
ENTRY(nesting) { Deep d = Deep(); Schema s = schemaOf(d, "Deep"); IS("__vs__Deep", "in:tns:__vs__Deep__Inner ti:tns:__vs__Temp__int___ tn:tns:__vs__Temp____vs__inner__In___ ts:tns:__vs__Temp__std__string___ te:tns:__vs__Temp____vs__inner__E___ tt:tns:__vs__Temp____vs__inner__TT__int___bool______ vt:tns:std__vector___vs__inner__TT__short___int____ mark:xs:int"); IS("__vs__Deep__Inner", "a:xs:int in:tns:__vs__inner__In ie:tns:__vs__Deep__Inner__IE"); IS("__vs__Temp____vs__inner__In___", "t:tns:__vs__inner__In v:tns:std__vector___vs__inner__In_"); IS("__vs__Deep__Inner__IE", "p|q"); d.in.in = in(); d.in.ie = sym<bool>("ie") ? Deep::Inner::q : Deep::Inner::p; d.tn.t = in0(); d.tn.v.resize(sym_pick("n", 0, 2), in0()); d.te.t = inner::v; d.te.v.push_back(inner::u); d.ts.v.push_back("a"); d.tt.v.resize(1); d.vt.resize(1); accepted(s, d, sym<bool>("pretty")); }
ENTRY(derived_containers) { Mem m; Schema s = schemaOf(m, "Mem"); IS("__vs__Mem", "s:tns:__vs__Str d:tns:__vs__Derived v:tns:__vs__Vec lv:tns:std__list___vs__Vec_"); static_cast<std::string&>(m.s) = std::string(sym_pick("len", 0, 2), 'x'); m.s.n = digit("n"); m.v.n = 1; m.d = Derived(); m.d.in = in0(); for (unsigned i = 0, n = sym_pick("nv", 0, 2); i < n; i++) m.v.push_back(digit("v")); m.lv.resize(sym_pick("nl", 0, 1)); if (!m.lv.empty()) { m.lv.back().n = digit("n"); m.lv.back().push_back(4); } accepted(s, m, sym<bool>("pretty")); }
ENTRY(recursive) { if (sym<bool>("mutual")) { Tree t; t.t = 1; Schema s = schemaOf(t, "Tree"); IS("__vs__Tree", "bs:tns:std__vector___vs__Branch_ t:xs:int"); IS("__vs__Branch", "ts:tns:std__vector___vs__Tree_ b:xs:int"); t.bs.resize(sym_pick("n", 0, 2)); for (size_t i = 0; i < t.bs.size(); i++) { t.bs[i].b = digit("b"); t.bs[i].ts.resize(i); if (i) t.bs[i].ts[0].t = digit("t"); } accepted(s, t, false); } else { Rec r; r.a = 1; Schema s = schemaOf(r, "Rec"); IS("__vs__Rec", "a:xs:int kids:tns:std__vector___vs__Rec_ named:tns:std__map_int___vs__Rec_"); r.kids.resize(sym_pick("n", 0, 2)); for (size_t i = 0; i < r.kids.size(); i++) { r.kids[i].a = digit("a"); r.kids[i].kids.resize(i); if (i) r.kids[i].kids[0].a = 4; } if (sym<bool>("named")) r.named[5].a = 6; accepted(s, r, sym<bool>("pretty")); } }
ENTRY(empty) { switch (sym_pick("k", 0, 2)) { case 0: { Empty e; Schema s = schemaOf(e, "Empty"); IS("__vs__Empty", ""); accepted(s, e, sym<bool>("pretty")); break; } case 1: { HasEmpty e; Schema s = schemaOf(e, "HasEmpty"); IS("__vs__HasEmpty", "e:tns:__vs__Empty a:xs:int v:tns:std__vector___vs__Empty_ ar:tns:__builtin_array___vs__Empty_2"); e.a = digit("a"); e.v.resize(sym_pick("n", 0, 2)); accepted(s, e, sym<bool>("pretty")); break; } case 2: { Marked e; Schema s = schemaOf(e, "Marked"); IS("__vs__Marked", "base___vs__Empty:tns:__vs__Empty m:xs:int"); e.m = digit("m"); accepted(s, e, sym<bool>("pretty")); break; } } }
ENTRY(pointers) { Ptrs p; p.mark = 1; p.after = in0(); Schema s = schemaOf(p, "Ptrs"); XTy& t = s.types["__vs__Ptrs"]; CHECK(t.els.size() == 5 && t.els[0].name == "p" && t.els[0].opt && t.els[1].name == "q" && t.els[1].opt && t.els[2].name == "n" && t.els[2].opt && t.els[2].type == "xs:int", "pointers are optional"); CHECK(t.els[3].name == "mark" && !t.els[3].opt && t.els[4].name == "after" && !t.els[4].opt && t.els[4].type == "tns:__vs__inner__In", "other members are not"); if (sym<bool>("p")) p.p.reset(new In(in())); if (sym<bool>("q")) p.q.reset(new In(in0())); if (sym<bool>("n")) p.n.reset(new int(digit("v"))); accepted(s, p, sym<bool>("pretty")); }
ENTRY(several) { // one generator for several types; and the same again
  xsd_generate_t g; Derived2 d = Derived2(); Arrays a = Arrays(); bool first = sym<bool>("first"); if (first) xsd_generate(g, "other", a); xsd_generate(g, "root", d); if (!first) { xsd_generate(g, "x.y", a); } std::ostringstream o, q; g.output(o, "urn:x"); g.output(q, "urn:x"); CHECK(o.str() == q.str(), "the same when written again"); Schema s; bool ok = s.parse(o.str()); CHECK(ok && s.root == "root" && s.rootType == "tns:__vs__Derived2", "a valid schema, of the last"); IS("__vs__inner__In", "x:xs:int e:tns:__vs__inner__E"); IS("__vs__Derived", "base___vs__Base:tns:__vs__Base own:xs:int in:tns:__vs__inner__In last:xs:int"); CHECK(s.types.count("__vs__Arrays") == 1, "all types"); d.in = in(); accepted(s, d, false); }
