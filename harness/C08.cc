// C08: reference counted references under arbitrary histories
//@ std: c++98
//@ cd: pack
//@ bounds: histories of up to 4 (quick) / 5 operations over 2 references, and 3 / 4 over 3, linked payloads included
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "ref.h"
#include "classdesc_epilogue.h"
#include <set>
using namespace classdesc;
static int alive;
struct P { int v; P(int v = 0): v(v) { alive++; } P(const P& x): v(x.v) { alive++; } ~P() { alive--; } int get() const { return v; } void set(int x) { v = x; } bool operator==(const P& x) const { return v == x.v; } };
struct L { int v; ref<L> next; L(int v = 0): v(v) { alive++; } L(const L& x): v(x.v), next(x.next) { alive++; } ~L() { alive--; } };
template <int NR, int NOP> void hist() { alive = 0; { ref<P> r[NR]; int cell[NR], val[16], n = 0; for (int i = 0; i < NR; i++) cell[i] = -1; // model: r[i] denotes object cell[i]
  for (int s = 0; s < NOP; s++) { unsigned i = sym_pick("i", 0, NR - 1), op = sym_pick("op", 0, 7); 
    switch (op) {
    case 0: { unsigned j = sym_pick("j", 0, NR - 1); r[i] = r[j]; cell[i] = cell[j]; break; }
    case 1: { int x = sym<int>("x"); r[i] = P(x); cell[i] = n; val[n++] = x; break; }
    case 2: r[i].nullify(); cell[i] = -1; break;
    case 3: { int x = sym<int>("x"); r[i]->v = x; if (cell[i] < 0) { cell[i] = n++; } val[cell[i]] = x; break; }
    case 4: { unsigned j = sym_pick("j", 0, NR - 1); r[i].swap(r[j]); std::swap(cell[i], cell[j]); break; }
    case 5: { ref<P> t(r[i]); CHECK(t == r[i], "a copy denotes the same object"); if (cell[i] >= 0) CHECK(t.refCount() >= 2, "a copy is counted"); break; }
    case 6: { if (cell[i] < 0) break; r[i] = *r[i]; val[n] = val[cell[i]]; cell[i] = n++; break; }
    case 7: { unsigned j = sym_pick("j", 0, NR - 1); std::swap(r[i], r[j]); std::swap(cell[i], cell[j]); break; } }
    std::set<int> objs; for (int k = 0; k < NR; k++) { CHECK(r[k].nullref() == (cell[k] < 0) && bool(r[k]) == (cell[k] >= 0), "null exactly when it denotes nothing"); int c = 0; for (int m = 0; m < NR; m++) { if (cell[k] >= 0 && cell[m] == cell[k]) c++; CHECK((r[k] == r[m]) == (cell[k] == cell[m]), "equal exactly when they denote the same object"); } CHECK(r[k].refCount() == c, "the count is the number of references"); if (cell[k] >= 0) { objs.insert(cell[k]); CHECK((*r[k]).v == val[cell[k]], "the object has the last value stored"); } }
    CHECK(alive == (int)objs.size(), "an object lives exactly as long as it is referenced"); } } CHECK(alive == 0, "everything is released"); }
ENTRY(hist2) { hist<2, TIER ? 5 : 4>(); } //@@ fix:i=0..1 fix:op=0..7 weight=5
ENTRY(hist3) { hist<3, TIER ? 4 : 3>(); } //@@ fix:i=0..2 fix:op=0..7 weight=5
ENTRY(linked) { alive = 0; { ref<L> h; unsigned n = sym_pick("n", 1, 4); for (unsigned i = 0; i < n; i++) { L x(sym<int>("v")); x.next = h; h = x; } CHECK(alive == (int)n, "one object per link"); 
  int second = n > 1 ? h->next->v : 0; bool other = sym<bool>("other"); ref<L> keep; if (other) keep = h; h = h->next; CHECK(h.nullref() == (n == 1), "advanced"); if (n > 1) CHECK(h->v == second, "r = r->next leaves a usable reference"); CHECK(alive == (int)(other ? n : n - 1), "the skipped head is released unless referenced"); } CHECK(alive == 0, "everything is released"); }
ENTRY(self) { alive = 0; { ref<P> r(P(sym<int>("v"))); int v = r->v; r = r; CHECK(r.refCount() == 1 && r->v == v, "self assignment"); r = *r; CHECK(r.refCount() == 1 && r->v == v, "assignment from its own object"); ref<P> s = r; s = *r; CHECK(s->v == v && !(s == r) && r.refCount() == 1, "assignment from an object makes a new one"); std::swap(r, r); CHECK(r.refCount() == 1 && r->v == v, "self swap"); } CHECK(alive == 0, "everything is released"); }
ENTRY(compare) { ref<P> a, b; int v = sym<int>("v"), w = sym<int>("w"); CHECK(a == b && !(a != b), "nulls are equal"); CHECK(a.refCount() == 0, "null counts nothing"); b = P(v); CHECK(b == P(w) ? v == w : v != w, "comparison with a value"); CHECK(!(a == P(w)), "a null reference equals no value"); CHECK(b == (const P*)&*b && b != (const P*)0, "comparison with a pointer"); std::set<ref<P> > s; s.insert(a); s.insert(b); s.insert(ref<P>(b)); CHECK(s.size() == 2, "usable in sets"); }
ENTRY(containers) { alive = 0; { std::vector<ref<P> > v; unsigned n = sym_pick("n", 0, 4); ref<P> x = P(sym<int>("v")); for (unsigned i = 0; i < n; i++) v.push_back(x); CHECK(x.refCount() == (int)n + 1 && alive == 1, "vector growth keeps the count"); if (n) { v.erase(v.begin() + sym_pick("at", 0, n - 1)); CHECK(x.refCount() == (int)n, "erase releases one"); } std::vector<ref<P> > w = v; w = v; v = w; v.clear(); CHECK(x.refCount() == (int)(n ? n : 1), "copies are counted"); } CHECK(alive == 0, "everything is released"); }
ENTRY(roundtrip) { alive = 0; { typedef ref<std::string> R; R x, y(std::string("old")), z(y); if (sym<bool>("has")) x = sym_string("s", 2); pack_t b; b << x << x; b >> y >> z; CHECK(x.nullref() == y.nullref() && (x.nullref() || *x == *y), "a reference round trips"); CHECK(x.nullref() == z.nullref() && (x.nullref() || *x == *z), "again"); CHECK(b.pos() == b.size(), "exact consumption"); } }
