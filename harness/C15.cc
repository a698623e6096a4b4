// C15: smart pointers and polymorphic objects round-trip through XML
//@ std: c++98
//@ cd: pack xml_pack typeName
//@ gen: vxptr.h -> vxptr.cd : -typeName -nodef -onbase -respect_private -i $SRC xml_pack xml_unpack
//@ bounds: every combination of null/non-null and dynamic type of source and target; integers from -9 to 99; strings of up to 2 characters; vectors of up to 2 pointers; plain and pretty layout
//@ assume: null elements of containers are excluded (XML has no place for them)
#include "sym.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "vxptr.h"
namespace classdesc { template <class T> struct tn<ref<T> > { static string name() { return "classdesc::ref<" + typeName<T>() + ">"; } }; }
#include "vxptr.cd"
#include "classdesc_epilogue.h"
#include <sstream>
using namespace classdesc; using namespace vq;
namespace vq { shape* shape::create(int t) { switch (t) { case 1: return new circle; case 7: return new square; default: throw std::runtime_error("unknown"); } } }
static shape* mk(unsigned k) { switch (k) { case 0: return 0; case 1: { circle* c = new circle; c->r = sym_range("r", 0, 9); return c; } default: { square* c = new square; c->r = 5; c->name = sym_string("name", 1); return c; } } }
static void same(const shape* a, const shape* b) { CHECK((a == 0) == (b == 0), "null stays null, others do not"); if (!a) return; CHECK(a != b && a->type() == b->type(), "a new object of the same type"); if (const circle* x = dynamic_cast<const circle*>(a)) CHECK(x->r == dynamic_cast<const circle&>(*b).r, "value"); if (const square* x = dynamic_cast<const square*>(a)) { const square& y = dynamic_cast<const square&>(*b); CHECK(x->r == y.r && x->name == y.name, "value including bases"); } }
template <class T> void trip(T& x, T& y, bool pretty) { std::ostringstream o; xml_pack_t p(o); p.prettyPrint = pretty; xml_pack(p, "root", x); std::istringstream i(o.str()); xml_unpack_t u(i); xml_unpack(u, "root", y); }
static Plain* plain() { Plain* p = new Plain; p->v = sym_range("v", 0, 99) - 9; p->s = sym_string("s", sym_pick("n", 0, 2)); return p; }
ENTRY(plain_shared) { unsigned long before = sym_live(); { shared_ptr<Plain> a, b; if (sym<bool>("has")) a.reset(plain()); shared_ptr<Plain> alias; if (sym<bool>("old")) { b.reset(new Plain); b->v = 71; b->s = "old"; if (sym<bool>("alias")) alias = b; } trip(a, b, false); if (alias) CHECK(alias->v == 71 && alias->s == "old" && alias != b, "a new object: other holders keep the old one"); CHECK(!a == !b, "null stays null"); if (a) CHECK(a->v == b->v && a->s == b->s, "value"); } CHECK(sym_live() == before, "nothing leaks"); }
ENTRY(fundamental_shared) { shared_ptr<int> a, b; if (sym<bool>("has")) a.reset(new int(sym_range("v", 0, 99))); if (sym<bool>("old")) b.reset(new int(5)); trip(a, b, sym<bool>("pretty")); CHECK(!a == !b, "null stays null"); if (a) CHECK(*a == *b, "value"); }
ENTRY(string_shared) { shared_ptr<std::string> a, b; if (sym<bool>("has")) a.reset(new std::string(sym_string("s", sym_pick("n", 0, 2)))); if (sym<bool>("old")) b.reset(new std::string("old")); trip(a, b, false); CHECK(!a == !b, "null stays null"); if (a) CHECK(*a == *b, "value"); }
ENTRY(poly_shared) { unsigned long before = sym_live(); { shared_ptr<shape> a(mk(sym_pick("kind", 0, 2))), b(mk(sym_pick("old", 0, 2))), alias; circle* oc = dynamic_cast<circle*>(b.get()); int was = oc ? oc->r : 0; if (sym_pick("alias", 0, 1)) alias = b; const shape* at = b.get(); trip(a, b, sym<bool>("pretty")); same(a.get(), b.get()); if (alias) { CHECK(a == 0 || b != alias, "a new object"); CHECK(!oc || oc->r == was, "other holders of the old object keep it as it was"); CHECK(alias.get() == at, "the old object lives on"); } } CHECK(sym_live() == before, "nothing leaks"); }
ENTRY(members) { Holder x, y; x.before = 1; x.after = 2; bool pretty = sym<bool>("pretty"); if (sym<bool>("hp")) { x.p.reset(new Plain); x.p->v = sym_range("v", 0, 99); x.p->s = "a<b"; } if (sym<bool>("hi")) x.i.reset(new int(sym_range("i", 0, 9))); x.q.reset(mk(sym_pick("kind", 0, 2))); if (sym<bool>("old")) { y.p.reset(new Plain); y.i.reset(new int(9)); y.q.reset(new square); } trip(x, y, pretty);
  CHECK(y.before == 1 && y.after == 2, "other members"); CHECK(!x.p == !y.p && !x.i == !y.i, "null stays null"); if (x.p) CHECK(x.p->v == y.p->v && x.p->s == y.p->s, "object"); if (x.i) CHECK(*x.i == *y.i, "number"); same(x.q.get(), y.q.get()); } //@@ fix:pretty=0..1
ENTRY(refs) { Refs x, y; x.after = 3; y.after = 0; if (sym<bool>("hp")) { x.p->v = sym_range("v", 0, 99); x.p->s = sym_string("s", sym_pick("n", 0, 1)); } if (sym<bool>("hi")) *x.i = sym_string("i", sym_pick("m", 0, 1)); bool old = sym<bool>("old"); if (old) { y.p->v = 5; y.p->s = "old"; *y.i = "old"; } trip(x, y, sym<bool>("pretty")); CHECK(y.after == 3, "what follows"); CHECK(bool(y.p) == (x.p || old) && bool(y.i) == (x.i || old), "null stays null"); if (old) CHECK((x.p || (y.p->v == 5 && y.p->s == "old")) && (x.i || *y.i == "old"), "missing members are left alone"); if (x.p) CHECK(x.p->v == y.p->v && x.p->s == y.p->s, "object"); if (x.i) CHECK(*x.i == *y.i, "number"); }
ENTRY(ref_root) { ref<std::string> a, b; if (sym<bool>("has")) *a = sym_string("v", sym_pick("n", 0, 2)); if (a && sym<bool>("old")) *b = "old"; std::ostringstream o; xml_pack_t p(o); xml_pack(p, "root", a); if (a) { trip(a, b, false); CHECK(bool(b), "null stays null"); } else CHECK(o.str().empty(), "nothing for null"); if (a) CHECK(*a == *b, "value"); }
ENTRY(vectors) { Vecs x, y; for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) { x.p.push_back(shared_ptr<Plain>(new Plain)); x.p.back()->v = sym_range("v", 0, 9); } for (unsigned i = 0, n = sym_pick("m", 0, 2); i < n; i++) x.q.push_back(shared_ptr<shape>(mk(sym_pick("kind", 1, 2)))); y.p.resize(1); y.q.push_back(shared_ptr<shape>(new circle)); trip(x, y, false); CHECK(x.p.size() == y.p.size() && x.q.size() == y.q.size(), "sizes"); for (unsigned i = 0; i < x.p.size(); i++) { CHECK(!!y.p[i], "not null"); CHECK(x.p[i]->v == y.p[i]->v, "value"); } for (unsigned i = 0; i < x.q.size(); i++) same(x.q[i].get(), y.q[i].get()); }
ENTRY(unknown_type) { unsigned long before = sym_live(); { int t = sym_range("t", 0, 9); std::ostringstream d; d << "<root><type>" << t << "</type><base___vq__circle_b><r>3</r></base___vq__circle_b></root>"; std::istringstream i(d.str()); shared_ptr<shape> b(mk(sym_pick("old", 0, 1))), keep = b; bool ok = true; try { xml_unpack_t u(i); xml_unpack(u, "root", b); } catch (std::exception&) { ok = false; } CHECK(ok == (t == 1 || t == 7), "unknown types are refused"); if (ok) CHECK(b && b->type() == t && dynamic_cast<circle_b&>(*b).r == (t == 1 ? 3 : 0), "object"); else CHECK(b == keep, "left alone when refused"); } CHECK(sym_live() == before, "nothing leaks"); }
template <class E> static void elems() { std::vector<E> x, y(1); unsigned n = sym_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) { x.push_back(E(new typename E::element_type)); *x.back() = sym_range("v", 0, 9) + '0'; } trip(x, y, sym<bool>("pretty")); CHECK(y.size() == n, "number of elements"); for (unsigned i = 0; i < n; i++) CHECK(y[i] && *y[i] == *x[i], "elements of pointers to plain values"); }
ENTRY(plain_elements) { if (sym<bool>("t")) elems<shared_ptr<int> >(); else elems<shared_ptr<std::string> >(); }
ENTRY(ref_elements) { std::vector<ref<std::string> > x, y(1); unsigned n = sym_pick("n", 0, 2); x.resize(n); for (unsigned i = 0; i < n; i++) *x[i] = sym_string("s", 1); trip(x, y, false); CHECK(y.size() == n, "number of elements"); for (unsigned i = 0; i < n; i++) CHECK(y[i] && *y[i] == *x[i], "elements"); }
ENTRY(pointer_map) { std::map<int, shared_ptr<Plain> > x, y; for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) { shared_ptr<Plain>& p = x[i * 3]; if (sym<bool>("has")) { p.reset(new Plain); p->v = sym_range("v", 0, 9); } } y[9]; trip(x, y, false); CHECK(y.size() == x.size(), "number of elements"); for (std::map<int, shared_ptr<Plain> >::iterator i = x.begin(); i != x.end(); ++i) { CHECK(y.count(i->first), "key"); shared_ptr<Plain>& p = y[i->first]; CHECK(!p == !i->second && (!p || p->v == i->second->v), "value"); } }
