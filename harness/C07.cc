// C07: smart pointers and polymorphic objects round-trip: same dynamic type, same value, null stays null
//@ std: c++17
//@ cd: pack typeName
//@ gen: vpoly.h -> vpoly.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: all member values; every combination of null/non-null source and target; containers of up to 3 pointers
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "vpoly.h"
#include "vpoly.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vp;
namespace classdesc { template <> Factory<vp::shape, int>::Factory() { registerType<vp::circle>(); registerType<vp::square>(); registerType<vp::leaf>(-3); } }
namespace vp { shape* shape::create(int t) { static Factory<shape, int> f; return f.create(t); } }
static shape* mk(unsigned k) { switch (k) { case 0: return 0; case 1: { circle* c = new circle; c->r = sym<int>("r"); return c; } case 2: { square* c = new square; c->r = sym<int>("r"); c->side = sym<long>("side"); c->name = sym_string("name", 2); return c; } default: return new leaf; } }
static void same(const shape* a, const shape* b) { CHECK((a == 0) == (b == 0), "null stays null, others do not"); if (!a) return; CHECK(a != b, "a new object"); CHECK(a->type() == b->type(), "type identifier"); 
  CHECK((dynamic_cast<const circle*>(a) != 0) == (dynamic_cast<const circle*>(b) != 0) && (dynamic_cast<const square*>(a) != 0) == (dynamic_cast<const square*>(b) != 0) && (dynamic_cast<const leaf*>(a) != 0) == (dynamic_cast<const leaf*>(b) != 0), "dynamic type is restored");
  if (auto x = dynamic_cast<const circle*>(a)) CHECK(x->r == dynamic_cast<const circle*>(b)->r, "value"); if (auto x = dynamic_cast<const square*>(a)) { auto y = dynamic_cast<const square*>(b); CHECK(x->r == y->r && x->side == y->side && x->name == y->name, "value including bases"); } }
ENTRY(plain_shared) { std::shared_ptr<Plain> a, b; if (sym<bool>("has")) { a.reset(new Plain); a->v = sym<int>("v"); a->w = sym<short>("w"); } if (sym<bool>("old")) { b.reset(new Plain); b->v = 71; b->w = 72; } std::shared_ptr<Plain> alias(b); int m = sym<int>("m"), m2 = 0; pack_t p; p << a << m; p >> b >> m2; CHECK(bool(a) == bool(b), "nullness"); if (a) CHECK(a != b && a->v == b->v && a->w == b->w && b.use_count() == 1, "value"); if (alias) CHECK(alias->v == 71 && alias->w == 72 && alias.use_count() == 1, "an object shared with the old target is left alone"); CHECK(m == m2 && p.pos() == p.size(), "exact consumption"); }
ENTRY(plain_unique) { std::unique_ptr<Plain> a, b; if (sym<bool>("has")) { a.reset(new Plain); a->v = sym<int>("v"); a->w = 2; } if (sym<bool>("old")) b.reset(new Plain); pack_t p; p << a; p >> b; CHECK(bool(a) == bool(b), "nullness"); if (a) CHECK(a->v == b->v, "value"); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(weak) { std::shared_ptr<Plain> a, tgt; if (sym<bool>("has")) { a.reset(new Plain); a->v = sym<int>("v"); a->w = 3; } if (sym<bool>("tgt")) { tgt.reset(new Plain); tgt->v = 5; tgt->w = 6; } std::weak_ptr<Plain> w(a), x(tgt); int m = 9, m2 = 0; pack_t p; p << w << m; p >> x >> m2; CHECK(m2 == 9 && p.pos() == p.size(), "exact consumption"); if (tgt) { if (a) CHECK(tgt->v == a->v && tgt->w == a->w, "a live target is assigned"); else CHECK(tgt->v == 5 && tgt->w == 6, "a null source leaves a live target alone"); } if (a) CHECK(a->w == 3, "source unharmed"); }
ENTRY(poly_shared) { unsigned long before = sym_live(); { std::shared_ptr<shape> a(mk(sym_pick("kind", 0, 3))), b(mk(sym_pick("old", 0, 2))), alias(b); pack_t was; was << alias; int m = sym<int>("m"), m2 = 0; pack_t p; p << a << m; sym_observe(p.size(), "size"); p >> b >> m2; same(a.get(), b.get()); CHECK(m == m2 && p.pos() == p.size(), "exact consumption"); pack_t is; is << alias; CHECK(is == was && (!alias || alias.use_count() == 1), "an object shared with the old target is left alone"); } (void)before; }
ENTRY(poly_unique) { std::unique_ptr<shape> a(mk(sym_pick("kind", 0, 3))), b(mk(sym_pick("old", 0, 1))); pack_t p; p << a; p >> b; same(a.get(), b.get()); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(poly_vector) { std::vector<std::shared_ptr<shape>> v, w; unsigned n = sym_pick("n", 0, TIER ? 3 : 2); for (unsigned i = 0; i < n; i++) v.emplace_back(mk(sym_pick("kind", 0, 3))); w.emplace_back(mk(1)); pack_t p; p << v; p >> w; CHECK(w.size() == n, "length"); for (unsigned i = 0; i < n; i++) same(v[i].get(), w[i].get()); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(cloning) { std::unique_ptr<shape> a(mk(sym_pick("kind", 1, 3))); std::unique_ptr<PolyBase<int>> c(a->clone()); same(a.get(), dynamic_cast<shape*>(c.get())); unsigned long before = sym_live(); { std::unique_ptr<circle> x(a->cloneT<circle>()); CHECK((x.get() != 0) == (dynamic_cast<circle*>(a.get()) != 0), "typed clone is null for other types"); if (x) CHECK(x->r == dynamic_cast<circle*>(a.get())->r, "value"); } CHECK(sym_live() == before, "a mismatched typed clone is not leaked"); }
ENTRY(unknown_type) { pack_t p; bool valid = true; int t = sym<int>("t"); p << valid << t << 1 << 2 << 3 << 4 << 5; std::shared_ptr<shape> b(mk(sym_pick("old", 0, 1))), keep = b; bool ok = true; try { p >> b; } catch (std::exception&) { ok = false; } CHECK(ok == (t == 1 || t == 7 || t == -3) || t == 7, "an unregistered type is refused"); if (ok) CHECK(b && b->type() == t, "otherwise that type is created"); else if (t != 7) CHECK(b == keep, "refusal leaves the target"); sym_expect("refused"); if (!ok) sym_reach("refused"); }
