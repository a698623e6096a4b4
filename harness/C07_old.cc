// C07, second unit (C++98): the numbered object hierarchy, deep-copying polymorphic pointers, auto_ptr
//@ std: c++98
//@ cd: pack typeName
//@ gen: vobj.h -> vobj.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: all member values; every combination of null/dynamic type in source and target; histories of up to 3 (quick) / 4 operations
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "poly.h"
#include "vobj.h"
#include "vobj.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vo;
struct Plain { int v; };
typedef classdesc::shared_ptr<object> Obj;
static object* mk(unsigned k) { switch (k) { case 0: return 0; case 1: return new A(sym<int>("x")); case 2: return new B(sym<int>("x"), sym<int>("y")); default: { C* c = new C; c->z = sym<short>("z"); return c; } } }
static void same(const object* a, const object* b) { CHECK((a == 0) == (b == 0), "null stays null, others do not"); if (!a) return; CHECK(a != b, "a new object"); CHECK(a->type() == b->type(), "type identifier"); const A *p = dynamic_cast<const A*>(a), *q = dynamic_cast<const A*>(b); const B *r = dynamic_cast<const B*>(a), *s = dynamic_cast<const B*>(b); const C *t = dynamic_cast<const C*>(a), *u = dynamic_cast<const C*>(b); CHECK(!p == !q && !r == !s && !t == !u, "dynamic type is restored"); if (p) CHECK(p->x == q->x, "base value"); if (r) CHECK(r->y == s->y, "derived value"); if (t) CHECK(t->z == u->z, "value"); }
ENTRY(types) { A a; B b; C c; unsigned first = sym_pick("first", 0, 2); if (first == 1) b.type(); if (first == 2) c.type(); CHECK(a.type() != b.type() && b.type() != c.type() && a.type() != c.type(), "types have distinct identifiers"); CHECK(a.type() == A(4).type() && b.type() == B().type(), "the identifier belongs to the type"); object* o = object::create(b.type()); CHECK(dynamic_cast<B*>(o) != 0, "an identifier creates its own type"); delete o; }
ENTRY(shared_objects) { Obj a(mk(sym_pick("kind", 0, 3))), b(mk(sym_pick("old", 0, 3))); int m = sym<int>("m"), m2 = 0; pack_t p; p << a << m; p >> b >> m2; same(a.get(), b.get()); CHECK(m == m2 && p.pos() == p.size(), "exact consumption"); }
ENTRY(bad_object) { A a0; B b0; C c0; int na = a0.type(), nb = b0.type(), nc = c0.type(); pack_t p; int t = sym<int>("t"); p << t << 1 << 2 << 3 << 4; classdesc::shared_ptr<A> a; bool ok = true; try { p >> a; } catch (std::exception&) { ok = false; } CHECK(ok == (t == 0 || t == na + 1 || t == nb + 1), "identifiers of other types and unknown ones are refused"); CHECK((a.get() != 0) == (ok && t != 0), "target only set on success"); (void)nc; sym_expect("refused"); if (!ok) sym_reach("refused"); }
ENTRY(cloneT) { B b(sym<int>("x"), sym<int>("y")); B* c = b.cloneT(); A* d = static_cast<A&>(b).cloneT(); CHECK(c && c != &b && c->x == b.x && c->y == b.y, "typed clone"); CHECK(d && dynamic_cast<B*>(d), "a clone keeps the dynamic type"); delete c; delete d; }
#if __cplusplus < 201103L
ENTRY(autoptr) { std::auto_ptr<int> a, b; if (sym<bool>("has")) a.reset(new int(sym<int>("v"))); if (sym<bool>("old")) b.reset(new int(3)); pack_t p; p << a; p >> b; CHECK((a.get() == 0) == (b.get() == 0), "nullness"); if (a.get()) CHECK(*a == *b && a.get() != b.get(), "value"); CHECK(p.pos() == p.size(), "exact consumption"); }
#endif
typedef poly<A> PA;
static void samep(const PA& a, const PA& b) { CHECK(bool(a) == bool(b), "nullness"); if (a) same(&*a, &*b); }
ENTRY(poly_history) { unsigned long before = sym_live(); A a0; B b0; PA r[2]; int kind[2] = {0, 0}, x[2] = {0, 0}, y[2] = {0, 0}; for (unsigned s = 0; s < (TIER ? 4 : 3); s++) { unsigned i = sym_pick("i", 0, 1); switch (sym_pick("op", 0, 7)) {
  case 0: r[i] = r[1 - i]; kind[i] = kind[1 - i]; x[i] = x[1 - i]; y[i] = y[1 - i]; break;
  case 1: r[i] = r[i]; break;
  case 2: if (r[i]) r[i] = *r[i]; break;
  case 3: { x[i] = sym<int>("x"); kind[i] = 1; r[i] = A(x[i]); break; }
  case 4: { x[i] = sym<int>("x"); y[i] = sym<int>("y"); kind[i] = 2; r[i].addObject<B, int, int>(x[i], y[i]); break; }
  case 5: { std::swap(r[0], r[1]); std::swap(kind[0], kind[1]); std::swap(x[0], x[1]); std::swap(y[0], y[1]); break; }
  case 6: { PA t(r[i]); samep(t, r[i]); break; }
  case 7: if (r[i]) { x[i] = sym<int>("x"); r[i]->x = x[i]; } break; }
  for (int k = 0; k < 2; k++) { CHECK(bool(r[k]) == (kind[k] != 0), "null until assigned"); if (kind[k]) { CHECK(r[k]->x == x[k], "value"); CHECK((dynamic_cast<B*>(&*r[k]) != 0) == (kind[k] == 2), "dynamic type"); if (kind[k] == 2) CHECK(r[k].cast<B>().y == y[k], "derived value"); } } CHECK(!r[0] || !r[1] || &*r[0] != &*r[1], "copies are deep"); } (void)before; }
ENTRY(poly_roundtrip) { PA a, b; unsigned k = sym_pick("k", 0, 2), old = sym_pick("old", 0, 2); A a0; a0.type(); if (k == 1) a.addObject<A, int>(sym<int>("x")); if (k == 2) a.addObject<B, int, int>(sym<int>("x"), sym<int>("y")); if (old == 1) b.addObject<A, int>(3); if (old == 2) b.addObject<B, int, int>(3, 4); pack_t p; p << a; p >> b; samep(a, b); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(polyrefs) { typedef polyref<A> R; R a, b; a.addObject<B, int, int>(sym<int>("x"), sym<int>("y")); b = a; CHECK(&*a == &*b, "copies of a polymorphic reference are shallow"); b->x = sym<int>("nx"); CHECK(a->x == b->x, "shared"); pack_t p; R c, d; p << a << b; p >> c >> d; CHECK(c && c.cast<B>().y == a.cast<B>().y && c->x == a->x, "round trip"); R n; CHECK(!n, "null"); }
