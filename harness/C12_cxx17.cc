// C12, second unit: scoped and sized enums
//@ std: c++17
//@ cd: pack typeName
//@ gen: venum17.h -> venum17.cd : -typeName -nodef -onbase -i $SRC pack unpack
//@ bounds: every value of the underlying type; every symbol and every string of up to 4 characters
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "venum17.h"
#include "venum17.cd"
#include "classdesc_epilogue.h"
#include <map>
using namespace classdesc; using namespace ve;
struct Ref { const char* n; int v; };
template <class E> void table(std::initializer_list<Ref> r) {
  auto& k = enum_keys<E>(); int v = sym<int>("v"); auto nm = k(v); bool known = false; for (auto& i : r) known |= i.v == v; CHECK(nm.empty() == !known, "a value has a symbol exactly if it is defined"); if (known) CHECK((int)k(nm) == v, "inverse"); unsigned which = sym_pick("which", 0, r.size()); std::string s = which < r.size() ? std::string((r.begin() + which)->n) : sym_string("s", sym_pick("len", 0, 4)); bool there = false; int val = 0; for (auto& i : r) if (s == i.n) { there = true; val = i.v; } CHECK(k.has(s) == there && (int)k(s) == val, "exactly the defined symbols, with their values"); CHECK(k.size() == r.size(), "number of symbols");
  if (which < r.size()) { E e = (E)val, f = (E)0; auto h = enum_handle(f); h = s; CHECK(f == e && std::string(enum_handle(e)) == s, "handles"); pack_t b; int m = sym<int>("m"), m2 = 0; b << e << m; E g = (E)0; b >> g >> m2; CHECK(g == e && m == m2 && b.pos() == b.size(), "packed"); } }
ENTRY(scoped) { table<Scoped>({{"sa", 0}, {"sb", 9}, {"sc", 12}, {"sd", 13}}); }
ENTRY(small) { table<Small>({{"x0", 0}, {"x1", 1}, {"x200", 200}}); }
ENTRY(strct) { table<Str>({{"q0", 2}, {"q1", 3}}); }
ENTRY(wide) { table<Wide>({{"w0", 0}, {"wneg", -70000}}); }
ENTRY(braces) { table<Br>({{"b0", 4}, {"b1", 5}}); }
ENTRY(deep) { table<Holder::Deep>({{"d0", 0}, {"d1", -4}}); }
ENTRY(inner) { table<Holder::Old>({{"o0", 0}, {"o1", 3}}); }
ENTRY(members) { Holder x, y; x.s = sym<bool>("a") ? Scoped::sb : Scoped::sd; x.m = sym<bool>("b") ? Small::x1 : Small::x200; x.d = sym<bool>("c") ? Holder::Deep::d0 : Holder::Deep::d1; x.o = sym<bool>("e") ? Holder::o0 : Holder::o1; x.mark = sym<int>("m"); memset((void*)&y, 0, sizeof y); pack_t b; b << x; b >> y; CHECK(x.s == y.s && x.m == y.m && x.d == y.d && x.o == y.o && x.mark == y.mark && b.pos() == b.size(), "all members"); }
