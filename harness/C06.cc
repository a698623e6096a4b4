// C06: packing a pointer graph and unpacking it rebuilds an isomorphic graph (same values, same
// sharing, same cycles, same nulls), whatever the recursion limit; trees likewise.
//@ std: c++98
//@ cd: pack
//@ gen: vgraph.h -> vgraph.cd : -nodef -onbase -i $SRC pack unpack
//@ bounds: every 2-pointer graph on up to 3 nodes (quick) / every one on 3 nodes plus 4-node chains with arbitrary back edges (thorough); recursion limits 2..4 and 500; ids arbitrary
#include "sym.h"
#include "pack_base.h"
#include "pack_graph.h"
#include "pack_stl.h"
#include "vgraph.h"
#include "vgraph.cd"
#include "classdesc_epilogue.h"
#include <map>
using namespace classdesc; using namespace vg;
static unsigned limitOf(unsigned i) { static const unsigned l[] = {500, 2, 3, 4}; return l[i]; }
template <class N> struct Iso { std::map<const N*, const N*> f, g; unsigned n;
  Iso(): n(0) {}
  void go(const N* x, const N* y) {
    CHECK((x == 0) == (y == 0), "null pointers stay null, others do not"); if (!x) return;
    if (f.count(x)) { CHECK(f[x] == y, "shared nodes stay shared"); return; }
    CHECK(g.count(y) == 0, "distinct nodes stay distinct"); CHECK(x != y, "the copy is a new object"); f[x] = y; g[y] = x; n++;
    CHECK(x->id == y->id, "node contents are preserved"); go(x->a, y->a); go(x->b, y->b); } };
// warms up the library's own static work lists so that leak counts only see the graph
static void warm(const Node* root, unsigned lim) { { pack_t p; p.ptr_flag = GRAPH; p.recur_max = lim; Node *r = const_cast<Node*>(root), *o = 0; p << r; p >> o; } }
static void chk(const Node* x, const Node* y, unsigned& n) { Iso<Node> i; i.go(x, y); n = i.n; }
template <unsigned N> void graph() {
  Node nd[N]; for (unsigned i = 0; i < N; i++) { nd[i].id = sym<int>("id"); nd[i].a = nd[i].b = 0; }
  for (unsigned i = 0; i < N; i++) { unsigned a = sym_pick("a", 0, N), b = sym_pick("b", 0, N); nd[i].a = a == N ? 0 : &nd[a]; nd[i].b = b == N ? 0 : &nd[b]; }
  unsigned lim = limitOf(sym_pick("lim", 0, 3)); warm(&nd[0], lim); unsigned long before = sym_live(); { pack_t p; p.ptr_flag = GRAPH; p.recur_max = lim;
  Node* root = &nd[0]; Node* out = 0; p << root; sym_observe(p.size(), "size"); p >> out; CHECK(p.pos() == p.size(), "exact consumption"); unsigned n; chk(root, out, n); CHECK(p.alloced.size() == n, "one allocation per distinct node");
  if (n > 1) sym_reach("multi"); sym_expect("multi"); } CHECK(sym_live() == before, "the rebuilt nodes are released with the buffer"); }
ENTRY(graph2) { graph<2>(); }
ENTRY(graph3) { graph<3>(); } //@@ fix:a=0..3 fix:b=0..3 weight=3
ENTRY(ring) { unsigned n = sym_pick("n", 1, 7); std::vector<Node> nd(n); for (unsigned i = 0; i < n; i++) { nd[i].id = i; nd[i].a = &nd[(i + 1) % n]; nd[i].b = 0; } unsigned extra = sym_pick("from", 0, n - 1); nd[extra].b = &nd[sym_pick("to", 0, n - 1)]; pack_t p; p.ptr_flag = GRAPH; p.recur_max = sym_pick("lim", 2, 9); Node *root = &nd[0], *out = 0, *out2 = 0; p << root << root; p >> out; unsigned k; chk(root, out, k); CHECK(k == n, "whole ring rebuilt"); p >> out2; chk(root, out2, k); CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(holder) { Node x[2]; x[0].id = sym<int>("id"); x[1].id = sym<int>("id"); for (int i = 0; i < 2; i++) { unsigned a = sym_pick("a", 0, 2); x[i].a = a == 2 ? 0 : &x[a]; x[i].b = 0; } Holder h, g; h.x = sym<int>("x"); h.y = sym<int>("y"); unsigned s = sym_pick("s", 0, 2), t = sym_pick("t", 0, 2); h.n = s == 2 ? 0 : &x[s]; h.m = t == 2 ? 0 : &x[t]; g.x = g.y = 0; g.n = g.m = &x[0]; pack_t p; p.ptr_flag = GRAPH; p << h; p >> g; CHECK(g.x == h.x && g.y == h.y, "members around the pointers are preserved"); unsigned k; chk(h.n, g.n, k); chk(h.m, g.m, k); CHECK(p.pos() == p.size(), "exact consumption"); }
struct TIso { static unsigned go(const TNode* x, const TNode* y) { CHECK((x == 0) == (y == 0), "null pointers stay null, others do not"); if (!x) return 0; CHECK(x != y, "the copy is a new object"); CHECK(x->id == y->id, "node contents are preserved"); return 1 + go(x->l, y->l) + go(x->r, y->r); } };
ENTRY(tree) { TNode nd[4]; for (int i = 0; i < 4; i++) { nd[i].id = sym<int>("id"); nd[i].l = nd[i].r = 0; } unsigned used = 1; for (int i = 0; i < 4; i++) { if (used < 4 && i < (int)used && sym<bool>("l")) nd[i].l = &nd[used++]; if (used < 4 && i < (int)used && sym<bool>("r")) nd[i].r = &nd[used++]; }
  unsigned long before = sym_live(); { pack_t p; p.ptr_flag = TREE; TNode *root = sym<bool>("nullroot") ? 0 : &nd[0], *out = 0; p << root; p >> out; unsigned k = TIso::go(root, out); CHECK(k == p.alloced.size(), "one allocation per node"); CHECK(p.pos() == p.size(), "exact consumption"); } CHECK(sym_live() == before, "nodes released with the buffer"); }
ENTRY(tree_nulls) { TNode x, y; y.id = 5; y.l = y.r = 0; x.id = sym<int>("id"); x.l = sym<bool>("l") ? &y : 0; x.r = sym<bool>("r") ? &y : 0; pack_t p; p.ptr_flag = TREE; p << x; TNode t, old; old.id = 0; old.l = old.r = 0; t.id = 0; t.l = t.r = &old; p >> t; CHECK(t.id == x.id, "value"); TIso::go(x.l, t.l); TIso::go(x.r, t.r); }
ENTRY(pragma_graph) { PNode x, y; x.id = sym<int>("id"); y.id = sym<int>("id"); unsigned a = sym_pick("a", 0, 2), b = sym_pick("b", 0, 2); PNode* s[3] = {&x, &y, 0}; x.a = s[a]; y.a = s[b]; pack_t p; PNode q; q.id = 0; q.a = &x; p << x; p >> q; CHECK(q.id == x.id, "value"); CHECK((q.a == 0) == (x.a == 0), "nullness"); if (q.a) { CHECK(q.a != x.a, "new object"); CHECK(q.a->id == x.a->id, "contents"); CHECK((q.a->a == 0) == (x.a->a == 0), "nullness"); if (x.a->a) { CHECK(q.a->a->id == x.a->a->id, "contents"); CHECK((x.a->a == x.a) == (q.a->a == q.a), "cycles stay cycles"); } } CHECK(p.pos() == p.size(), "exact consumption"); }
ENTRY(pragma_tree) { QNode x, y; x.id = sym<int>("id"); y.id = sym<int>("id"); y.l = 0; x.l = sym<bool>("has") ? &y : 0; pack_t p; QNode q, old; old.l = 0; q.l = &old; p << x; p >> q; CHECK(q.id == x.id && (q.l == 0) == (x.l == 0), "tree member"); if (x.l) CHECK(q.l != &y && q.l->id == y.id && q.l->l == 0, "subtree"); }
ENTRY(default_refuses) { Node x; x.id = 1; x.a = x.b = 0; pack_t p; bool threw = false; Node* r = &x; try { p << r; } catch (std::exception&) { threw = true; } CHECK(threw, "pointers are refused unless a mode is chosen"); }
ENTRY(lifetime) { Node x, y; x.id = 1; x.a = &y; x.b = 0; y.id = 2; y.a = &x; y.b = &y; unsigned long before = sym_live(); { std::vector<PtrStoreRef> keep; Node *out = 0, *r = &x; { pack_t p; p.ptr_flag = GRAPH; p << r; p >> out; keep = p.alloced; } CHECK(out->id == 1 && out->a->id == 2 && out->a->b == out->a, "a copied allocation list keeps the nodes alive"); } CHECK(sym_live() == before, "and releases them when it goes"); }
ENTRY(lifetime_erase) { Node x, y; x.id = 1; x.a = &y; x.b = 0; y.id = 2; y.a = &x; y.b = &y; unsigned long before = sym_live(); { pack_t p; p.ptr_flag = GRAPH; Node *out = 0, *r = &x; p << r; p >> out; unsigned long full = sym_live(); p.alloced.erase(p.alloced.begin() + sym_pick("which", 0, 1)); CHECK(sym_live() == full - 1, "erasing an allocation releases that node"); CHECK(p.alloced.size() == 1, "one left"); std::vector<PtrStoreRef> other(1); other[0] = p.alloced[0]; other[0] = other[0]; p.alloced.clear(); CHECK(sym_live() <= full, "still owned"); ((Node*)other[0].data())->id = 7; } CHECK(sym_live() == before, "everything is released"); }
typedef Iso<RNode> RI;
struct RIso { std::map<const RNode*, const RNode*> f, g; void go(const ref<RNode>& x, const ref<RNode>& y) { CHECK(x.nullref() == y.nullref(), "null references stay null"); if (x.nullref()) return; const RNode *p = &*x, *q = &*y; if (f.count(p)) { CHECK(f[p] == q, "shared nodes stay shared"); return; } CHECK(!g.count(q), "distinct nodes stay distinct"); CHECK(p != q, "the copy is a new object"); f[p] = q; g[q] = p; CHECK(p->id == q->id, "contents"); go(p->a, q->a); go(p->b, q->b); } };
ENTRY(refs) { const unsigned N = 3; int id[N]; unsigned a[N], b[N]; for (unsigned i = 0; i < N; i++) id[i] = sym<int>("id"); for (unsigned i = 0; i < N; i++) { a[i] = sym_pick("a", 0, N); b[i] = sym_pick("b", i, N); } unsigned lim = limitOf(sym_pick("lim", 0, 3)); unsigned long before = 0;
 for (int round = 0; round < 2; round++) { before = sym_live(); ref<RNode> nd[N]; for (unsigned i = 0; i < N; i++) { nd[i] = RNode(); nd[i]->id = id[i]; } for (unsigned i = 0; i < N; i++) { if (a[i] < N) nd[i]->a = nd[a[i]]; if (b[i] < N) nd[i]->b = nd[b[i]]; }
  pack_t p; p.recur_max = lim; ref<RNode> out; p << nd[0]; p >> out; CHECK(p.pos() == p.size(), "exact consumption"); { RIso i; i.go(nd[0], out); }
  std::vector<RNode*> all; std::map<RNode*, int> seen; all.push_back(&*out); for (size_t k = 0; k < all.size(); k++) { RNode* c = all[k]; if (seen[c]++) continue; if (!c->a.nullref()) all.push_back(&*c->a); if (!c->b.nullref()) all.push_back(&*c->b); }
  std::vector<ref<RNode> > hold; for (std::map<RNode*, int>::iterator k = seen.begin(); k != seen.end(); ++k) { hold.push_back(k->first->a); hold.push_back(k->first->b); k->first->a.nullify(); k->first->b.nullify(); } for (unsigned i = 0; i < N; i++) { nd[i]->a.nullify(); nd[i]->b.nullify(); } }
  CHECK(sym_live() == before, "no reference is leaked or released early"); } 
ENTRY(failed_unpack) { // a refused graph does not poison later ones
  Node x, y; x.id = sym<int>("id"); x.a = &y; x.b = 0; y.id = 2; y.a = &x; y.b = &y; pack_t p; p.ptr_flag = GRAPH; Node* r = &x; p << r; unsigned cut = sym_pick("cut", 0, 40); if (cut > p.size()) cut = p.size(); pack_t t; t.ptr_flag = GRAPH; t.packraw(p.data(), cut); Node* out = 0; bool ok = true; try { t >> out; } catch (std::exception&) { ok = false; } CHECK(ok == (cut == p.size()), "a truncated graph is refused"); out = 0; p >> out; unsigned k; chk(r, out, k); CHECK(k == 2, "an intact graph is rebuilt after a failure"); sym_expect("failed"); if (!ok) sym_reach("failed"); }
// references within an existing structure: its old nodes, shared or not, are not what the new ones are made of
ENTRY(refs_over_old) { ref<RNode> nd[2], old[3], keep; for (unsigned i = 0; i < 2; i++) nd[i]->id = sym<int>("id"); RNode x, y; if (sym<bool>("ha")) x.a = nd[sym_pick("a", 0, 1)]; if (sym<bool>("hb")) x.b = nd[sym_pick("b", 0, 1)]; if (sym<bool>("link")) nd[0]->a = nd[1]; x.id = 5; for (unsigned i = 0; i < 3; i++) old[i]->id = 100 + i; y.id = 0; if (sym<bool>("oa")) y.a = old[0]; switch (sym_pick("ob", 0, 2)) { case 1: y.b = old[0]; break; case 2: y.b = old[1]; break; } if (sym<bool>("nest")) old[0]->a = old[2]; pack_t p; p.recur_max = limitOf(sym_pick("lim", 0, 2)); p << x; p >> y; CHECK(y.id == 5 && p.pos() == p.size(), "exact consumption"); { RIso i, j; i.go(x.a, y.a); j.go(x.b, y.b); } for (unsigned i = 0; i < 3; i++) CHECK(old[i]->id == 100 + (int)i, "old nodes are left alone"); CHECK(y.a.nullref() || (&*y.a != &*old[0] && &*y.a != &*old[1]), "new nodes"); }
// a graph is read from the buffer its contents were swapped to, and belongs to it
ENTRY(swapped) { Node x[3]; for (int i = 0; i < 3; i++) { x[i].id = sym<int>("id"); x[i].a = &x[(i + 1) % 3]; x[i].b = i ? &x[sym_pick("b", 0, 2)] : 0; } unsigned lim = limitOf(sym_pick("lim", 0, 3)); warm(x, lim); unsigned long before = sym_live(); { pack_t q; { pack_t p; p.ptr_flag = GRAPH; p.recur_max = lim; Node *r = x, *out = 0; p << r << r; unsigned when = sym_pick("when", 0, 2); if (when == 0) p.swap(q); if (when == 1) { p >> out; p.swap(q); } pack_t& s = when < 2 ? q : p; Node* o2 = 0; if (when == 1) chk(x, out, when); s >> o2; unsigned n; chk(x, o2, n); if (&s == &p) { p >> out; p.swap(q); } } CHECK(q.alloced.size() >= 3, "the allocations go with the contents"); for (size_t i = 0; i < q.alloced.size(); i++) CHECK(q.alloced[i].data() != 0, "and stay alive"); CHECK(sym_live() > before + 2, "and stay alive"); } CHECK(sym_live() == before, "released with the buffer they were swapped to"); }
