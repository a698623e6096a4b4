// C23: overload resolution in RESTProcess
//@ std: c++17
//@ cd: RESTProcess pack json_pack xml_pack xsd_generate typeName
//@ gen: vrest.h -> vrestj.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ gen: vrest.h -> vrest.cd : -nodef -use_mbr_pointers -onbase -overload -respect_private -i $SRC RESTProcess
//@ bounds: 10 overloads of one name, 3 of another; up to 4 arguments, each an integer, a real, a string, a bool, an object, null or a list
#include "vrestc.h"
static mValue arg(unsigned k) { switch (k) { case 0: return mValue(3); case 1: return mValue(2.5); case 2: return mValue("s"); case 3: return mValue(true); case 4: return pt(1, 2); case 5: return mValue(); default: return ints({1}); } }
// the arguments for which an overload of f is the best: types in order, or none
static int best(const std::vector<unsigned>& k) { if (k.empty()) return 1; if (k.size() == 1) switch (k[0]) { case 0: return 2; case 1: return 4; case 2: return 3; case 3: return 5; case 4: return 9; } if (k.size() == 2 && k[0] == 0 && k[1] == 0) return 6; if (k.size() == 2 && k[0] == 2 && k[1] == 0) return 7; if (k.size() == 2 && k[0] == 0 && k[1] == 2) return 8; if (k.size() == 3 && k[0] == 0 && k[1] == 0 && k[2] == 0) return 10; return 0; }
ENTRY(overloads) { Over o; RESTProcess_t r; RESTProcess(r, "o", o); unsigned n = sym_pick("n", 0, TIER ? 4 : 3); std::vector<unsigned> k; mArray a; for (unsigned i = 0; i < n; i++) { k.push_back(sym_pick("kind", 0, i < 2 ? 6 : 2)); a.push_back(arg(k[i])); } json_pack_t j = n == 1 && k[0] < 5 && sym_pick("bare", 0, 1) ? json_pack_t(a[0]) : n == 0 && sym_pick("bare", 0, 1) ? none() : json_pack_t(a); int e = best(k); if (e) CHECK(val<int>(r.process("o.f", j)) == e && o.last == e, "the one that matches"); else { bool threw = false; RPPtr p; try { p = r.process("o.f", j); } catch (const std::exception&) { threw = true; } CHECK(threw ? o.last == 0 : o.last != 0 && val<int>(p) == o.last, "one is called, or none"); } }
ENTRY(ambiguous) { Over o; RESTProcess_t r; RESTProcess(r, "o", o); switch (sym_pick("k", 0, 9)) { case 6: { bool first = sym_pick("first", 0, 1); mArray l(2, mValue(3)); l[first ? 0 : 1] = mValue(2.5); CHECK(val<int>(r.process("o.h", args({l, mValue(3)}))) == 3, "list with one real"); break; } case 7: { bool first = sym_pick("first", 0, 1); mArray l(2, mValue(3)); l[first ? 0 : 1] = mValue("s"); CHECK(bad(r, "o.h", args({l, mValue(3)})) && !o.last, "mixed list"); break; } case 8: CHECK(val<int>(r.process("o.h", args({mValue(2.5), mValue(3)}))) == 3, "a single element as a list"); break; case 9: CHECK(val<int>(r.process("o.h", args({mValue(mArray(2, mValue(2.5))), mValue(3)}))) == 3, "vector of reals"); break; case 0: CHECK(bad(r, "o.g", maybe(mValue(2.5))) && !o.last, "ambiguous"); break; case 1: CHECK(val<int>(r.process("o.g", maybe(mValue(3)))) == 3, "exact"); break; case 2: CHECK(bad(r, "o.g", maybe(mValue("s"))) && !o.last, "no match"); break; case 3: CHECK(val<int>(r.process("o.h", args({ints({1, 2}), mValue(3)}))) == 1, "vector of ints"); break; case 4: CHECK(val<int>(r.process("o.h", args({mValue(mArray(2, mValue("s"))), mValue(3)}))) == 2, "vector of strings"); break; case 5: CHECK(bad(r, "o.h", args({mValue(true), mValue(3)})) && !o.last, "no match"); break; } }
ENTRY(getset) { Over o; o.last = small("old"); int old = o.last; RESTProcess_t r; RESTProcess(r, "o", o); int v = small("v"); CHECK(val<int>(r.process("o.get", none())) == old, "getter"); CHECK(val<int>(r.process("o.get", maybe(mValue(v)))) == v && o.last == v, "setter"); CHECK(bad(r, "o.get", maybe(mValue("x"))) || o.last == v, "no such setter"); std::vector<Signature> s = val<std::vector<Signature>>(r.process("o.get.@signature", none())); CHECK(s.size() == 2, "both signatures"); s = val<std::vector<Signature>>(r.process("o.f.@signature", none())); CHECK(s.size() == 10, "all signatures"); RPPtr p = r["o.f"]; CHECK(p->signature().size() == 10 && p->type() == "overloaded function", "overloaded"); RESTProcess(r, "o", o); CHECK(r["o.f"]->signature().size() == 10 && r["o.get"]->signature().size() == 2, "registering again replaces"); }
