// C12: enum symbols and values correspond exactly
//@ std: c++98
//@ cd: pack typeName
//@ gen: venum.h -> venum.cd : -typeName -nodef -onbase -i $SRC pack unpack
//@ bounds: every 32 bit value and every string of up to 4 arbitrary characters (plus all symbols) for enums with implicit, explicit, negative, aliased, bracketed, commented and nested definitions
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "venum.h"
#include "venum.cd"
#include "classdesc_epilogue.h"
#include <sstream>
#include <map>
using namespace classdesc; using namespace ve;
struct Ref { const char* n; int v; };
template <class E> void table(const Ref* r, unsigned n) {
  const EnumKeys<E>& k = enum_keys<E>(); std::map<int, std::string> byv; for (unsigned i = 0; i < n; i++) byv[r[i].v] = r[i].n;
  int v = sym<int>("v"); std::string nm = k(v); bool known = false; for (unsigned i = 0; i < n; i++) known |= r[i].v == v; CHECK(nm.empty() == !known, "a value has a symbol exactly if it is defined"); if (known) CHECK((int)k(nm) == v, "symbol to value inverts value to symbol");
  unsigned which = sym_pick("which", 0, n); std::string s = which < n ? std::string(r[which].n) : sym_string("s", sym_pick("len", 0, 4)); bool there = false; int val = 0; for (unsigned i = 0; i < n; i++) if (s == r[i].n) { there = true; val = r[i].v; } CHECK(k.has(s) == there, "exactly the defined symbols are known"); CHECK((int)k(s) == val, "value of a symbol; zero if unknown");
  if (which < n) { CHECK(k.has((E)r[which].v), "defined value is known"); E e = (E)r[which].v; Enum_handle<E> h(e); CHECK(std::string(h) == byv[r[which].v], "handle gives the symbol"); CHECK(int(h) == r[which].v, "handle gives the value"); E f = E(); Enum_handle<E> g(f); g = s; CHECK(f == e, "assigning a symbol"); f = E(); g = r[which].v; CHECK(f == e, "assigning a value"); f = E(); g = e; CHECK(f == e, "assigning an enum"); CHECK(to_string(e) == byv[r[which].v], "to_string"); std::ostringstream o; o << enum_handle(e) << " " << h; std::istringstream i(o.str()); E x = E(), y = E(); Enum_handle<E> hx(x), hy(y); i >> hx >> hy; CHECK(x == e && y == e, "streamed by symbol"); }
  CHECK(k.size() == byv.size(), "number of values"); std::map<int, std::string>::iterator j = byv.begin(); for (typename EnumKeys<E>::iterator i = k.begin(); i != k.end(); ++i, ++j) CHECK(i->first == j->first && i->second == j->second, "enumeration in value order"); j = byv.begin(); typename EnumKeys<E>::Siterator si = k.sbegin(); for (typename EnumKeys<E>::Viterator vi = k.vbegin(); vi != k.vend(); ++vi, ++si, ++j) { CHECK((int)*vi == j->first, "value iteration"); CHECK(*si == j->second, "symbol iteration"); } CHECK(si == k.send(), "iterations end together"); }
#define TAB(E, ...) static const Ref r[] = {__VA_ARGS__}; table<E>(r, sizeof r / sizeof *r)
ENTRY(plain) { TAB(Plain, {"p0", 0}, {"p1", 1}, {"p2", 2}); }
ENTRY(vals) { TAB(Vals, {"va", -5}, {"vb", -4}, {"vc", 16}, {"vd", -3}, {"ve_", 6}, {"vf", 'c'}, {"vg", 2}, {"vh", 3}, {"vi", ','}); }
ENTRY(trail) { TAB(Trail, {"t0", 0}, {"t1", 1}); }
ENTRY(one) { TAB(One, {"only", -2147483647 - 1}); }
ENTRY(alias) { TAB(Alias, {"first", 1}, {"second", 1}, {"third", 2}); }
ENTRY(comments) { TAB(Comm, {"c0", 0}, {"c1", 4}, {"c2", 5}); }
ENTRY(nested) { TAB(Host::Inner, {"i0", 0}, {"i1", 3}); }
ENTRY(global) { TAB(Global, {"ga", 10}, {"gb", -10}); }
ENTRY(empty) { const EnumKeys<Empty>& k = enum_keys<Empty>(); CHECK(k.size() == 0 && k(sym<int>("v")).empty() && !k.has(sym_string("s", 2)), "no symbols"); }
ENTRY(members) { // every member of enum type travels, whichever way it was declared
  Host x, y; x.in1 = sym<bool>("a") ? Host::i1 : Host::i0; x.in2 = sym<bool>("b") ? Host::i1 : Host::i0; x.in3 = sym<bool>("c") ? Host::i1 : Host::i0; x.mark = sym<int>("m"); x.setp(sym<bool>("e"), sym<int>("l")); y.in1 = y.in2 = y.in3 = Host::i0; y.setp(false, 0); y.mark = 0; pack_t b; b << x; b >> y; CHECK(x.in1 == y.in1 && x.in2 == y.in2, "members declared with the definition"); CHECK(x.in3 == y.in3, "elaborated member"); CHECK(x.mark == y.mark, "following member"); CHECK(x.same(y), "private members"); CHECK(b.pos() == b.size(), "exact consumption"); }
