// C10: maps by string
//@ std: c++98
//@ cd: pack xml_pack xsd_generate typeName
//@ gen: vskm.h -> vskm.cd : -typeName -nodef -onbase -respect_private -i $SRC xml_pack xml_unpack
//@ bounds: maps of up to 2 entries, of integers, objects and strings
#include "sym.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "stringKeyMap.h"
#include "vskm.h"
#include "vskm.cd"
#include "classdesc_epilogue.h"
#include <sstream>
using namespace classdesc; using namespace vk;
ENTRY(keymap) { Keyed x, y; x.before = 3; x.after = 4; y.before = y.after = 0; for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) { const char* k = i ? "second" : "k"; x.m[k] = sym_range("v", 0, 9); In t = { sym_range("w", 0, 9), sym<bool>("b") }; x.p[k] = t; x.s[k] = sym_string("s", sym_pick("len", 0, 1)); } if (sym<bool>("used")) { y.m["k"] = 7; In t = {8, true}; y.p["k"] = t; y.s["k"] = "old"; } std::ostringstream o; xml_pack_t p(o); p.prettyPrint = sym<bool>("pretty"); xml_pack(p, "root", x); std::istringstream i(o.str()); xml_unpack_t u(i); xml_unpack(u, "root", y); CHECK(y.before == 3 && y.after == 4, "other members"); if (x.m.size()) { CHECK(x.m == y.m && x.s == y.s && x.p.size() == y.p.size(), "equal"); for (StringKeyMap<In>::iterator i = x.p.begin(); i != x.p.end(); ++i) CHECK(y.p[i->first].a == i->second.a && y.p[i->first].b == i->second.b, "objects"); } }
ENTRY(keymap_root) { StringKeyMap<int> x, y; x["k"] = sym_range("v", 0, 9); x["l"] = 4; std::ostringstream o; { xml_pack_t p(o); xml_pack(p, "root", x); } std::istringstream i(o.str()); xml_unpack_t u(i); xml_unpack(u, "root", y); CHECK(x == y, "equal"); }
