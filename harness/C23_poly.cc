// C23: polymorphic objects reached by name through RESTProcess
//@ std: c++17
//@ cd: RESTProcess pack json_pack xml_pack xsd_generate typeName
//@ gen: vrpoly.h -> vrpolyj.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ gen: vrpoly.h -> vrpoly.cd : -nodef -use_mbr_pointers -onbase -overload -respect_private -i $SRC RESTProcess
//@ bounds: pointers (shared, unique, weak; as members and in containers) to objects of a base and of a derived class
#include "sym.h"
#include "RESTProcess_base.h"
#include "vrpoly.h"
using namespace classdesc;
#include "vrpolyj.cd"
#include "vrpoly.cd"
#include "classdesc_epilogue.h"
using namespace vrp;
#define VREST_HELPERS_ONLY
#include "vrestc.h"
ENTRY(members) { Holder o; bool d = sym_pick("derived", 0, 1); B* b = d ? new B : 0; A* a = d ? b : new A; unsigned h = sym_pick("how", 0, 4); static const char* at[] = {"o.p", "o.u", "o.w", "o.v.@elem.1", "o.m.@elem.7"}; std::shared_ptr<A> keep; if (h == 1) o.u.reset(a); else keep.reset(a); if (h == 0) o.p = keep; if (h == 2) o.w = keep; if (h == 3) { o.v.push_back(nullptr); o.v.push_back(keep); } if (h == 4) o.m[7] = keep;
  RESTProcess_t r; RESTProcess(r, "o", o); int v = small("v"); std::string n(at[h]);
  switch (sym_pick("which", 0, h < 3 ? 6 : 5)) { case 0: CHECK(val<int>(r.process(n + ".a", none())) == 1 && a->a == 1, "member of the base"); break; case 1: CHECK(val<int>(r.process(n + ".a", maybe(mValue(v)))) == v && a->a == v, "set"); break; case 2: CHECK(val<int>(r.process(n + ".one", none())) == 2, "method of the base"); break;
    case 3: if (d) { CHECK(val<int>(r.process(n + ".b", maybe(mValue(v)))) == v && b->b == v && a->a == 1 && b->s == "old", "member of the derived class"); CHECK(val<std::string>(r.process(n + ".s", none())) == "old", "member of the derived class"); } else CHECK(bad(r, n + ".b", maybe(mValue(v))), "not a member"); break;
    case 4: if (d) CHECK(val<int>(r.process(n + ".add", maybe(mValue(v)))) == v + 2 && b->b == v + 2, "method of the derived class"); else CHECK(bad(r, n + ".add", maybe(mValue(v))), "not a method"); break;
    case 5: CHECK(val<int>(r.process(n + ".kind", none())) == int(d), "virtual method"); break;
    case 6: CHECK(words(r.process(n + ".@list", none())) == (d ? std::vector<std::string>{".a", ".add", ".b", ".kind", ".one", ".s"} : std::vector<std::string>{".a", ".kind", ".one"}), "what is listed"); break; }
  CHECK(o.before == 11 && o.after == 12, "nothing else changed"); }
