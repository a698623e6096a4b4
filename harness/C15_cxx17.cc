// C15: smart pointers round-trip through XML, with C++17 pointers
//@ std: c++17
//@ cd: pack xml_pack typeName
//@ gen: vxptr17.h -> vxptr17.cd : -typeName -nodef -onbase -respect_private -i $SRC xml_pack xml_unpack
#include "sym.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "vxptr17.h"
#include "vxptr17.cd"
#include "classdesc_epilogue.h"
#include <sstream>
using namespace classdesc; using namespace vq;
template <class T> void trip(T& x, T& y, bool pretty) { std::ostringstream o; xml_pack_t p(o); p.prettyPrint = pretty; xml_pack(p, "root", x); std::istringstream i(o.str()); xml_unpack_t u(i); xml_unpack(u, "root", y); }
ENTRY(members17) { U x, y; x.before = 1; x.after = 2; if (sym<bool>("hp")) { x.p.reset(new Plain); x.p->v = sym_range("v", 0, 99); x.p->s = sym_string("s", sym_pick("n", 0, 1)); } if (sym<bool>("hi")) x.i.reset(new int(sym_range("i", 0, 9))); if (sym<bool>("hs")) x.s.reset(new std::string("<>")); if (sym<bool>("old")) { y.p.reset(new Plain); y.i.reset(new int(4)); y.s.reset(new std::string("old")); } trip(x, y, sym<bool>("pretty"));
  CHECK(y.before == 1 && y.after == 2, "other members"); CHECK(!x.p == !y.p && !x.i == !y.i && !x.s == !y.s, "null stays null"); if (x.p) CHECK(x.p->v == y.p->v && x.p->s == y.p->s, "object"); if (x.i) CHECK(*x.i == *y.i, "number"); if (x.s) CHECK(*x.s == *y.s, "string"); }
ENTRY(unique_elements) { std::vector<std::unique_ptr<int> > x, y(1); unsigned n = sym_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) x.emplace_back(new int(sym_range("v", 0, 9))); trip(x, y, false); CHECK(y.size() == n, "number of elements"); for (unsigned i = 0; i < n; i++) CHECK(y[i] && *y[i] == *x[i], "elements"); }
