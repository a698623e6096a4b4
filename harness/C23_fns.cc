// C23: methods reached by name through RESTProcess
//@ std: c++17
//@ cd: RESTProcess pack json_pack xml_pack xsd_generate typeName
//@ gen: vrest.h -> vrestj.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ gen: vrest.h -> vrest.cd : -nodef -use_mbr_pointers -onbase -overload -respect_private -i $SRC RESTProcess
//@ bounds: 22 methods of up to 3 arguments; every value of an argument within 8 bits (32 for single arguments); up to 4 arguments given
#include "vrestc.h"
static void fill(Fns& f) { f.v[0] = Pt(3, 4); f.v[1] = Pt(5, 6); f.p = Pt(7, 8); f.m["k"] = Pt(1, 2); }
static bool same(const Fns& a, const Fns& b) { for (int i = 0; i < 2; i++) if (a.v[i].x != b.v[i].x || a.v[i].y != b.v[i].y) return false; return a.v.size() == b.v.size() && a.i == b.i && a.p.x == b.p.x && a.p.y == b.p.y && a.calls == b.calls && a.before == b.before && a.after == b.after && a.m.size() == b.m.size() && a.m.begin()->second.x == b.m.begin()->second.x; }
ENTRY(calls) { Fns f; fill(f); Fns e(f); RESTProcess_t r; RESTProcess(r, "o", f); int a = small("a"), b = small("b"), c = small("c");
  switch (sym_pick("which", 0, 13)) { case 0: CHECK(isNull(r.process("o.nothing", none())), "no result"); e.calls++; break; case 1: CHECK(val<int>(r.process("o.sub", args({mValue(a), mValue(b)}))) == a - b, "arguments in order"); e.calls++; break; case 2: CHECK(val<int>(r.process("o.twice", maybe(mValue(a)))) == 2 * a, "static"); break; case 3: CHECK(val<long long>(r.process("o.three", args({mValue(a), mValue(b), mValue(c)}))) == a * 100LL + b * 10 + c, "arguments in order"); break; case 4: CHECK(val<std::string>(r.process("o.cat", args({mValue("ab"), mValue(int(sym_pick("n", 0, 3)))}))).substr(0, 2) == "ab", "string argument"); break; case 5: { static const char* names[] = {"red", "green", "blue"}; unsigned k = sym_pick("k", 0, 2); CHECK(val<std::string>(r.process("o.next", maybe(mValue(names[k])))) == names[(k + 1) % 3], "enums by name"); break; } case 6: CHECK(val<int>(r.process("o.total", args({ints({a, b, c})}))) == a + b + c, "a list as argument"); break; case 7: CHECK(val<int>(r.process("o.weigh", maybe(pt(a, b)))) == a * 10 + b, "an object as argument"); break; case 8: CHECK(val<double>(r.process("o.half", maybe(mValue(a)))) == a / 2.0, "number"); break; case 9: { bool x = sym<bool>("x"); CHECK(val<bool>(r.process("o.flip", maybe(mValue(x)))) == !x, "bool"); break; } case 10: CHECK(val<int>(r.process("o.sub", args({mValue(a), mValue(b), mValue(c)}))) == a - b, "further arguments are ignored"); e.calls++; break; case 11: CHECK(val<int>(r.process("o.sub", maybe(mValue(a)))) == a, "missing arguments"); e.calls++; break; case 12: CHECK(bad(r, "o.hid", none()) && bad(r, "o.sub.x", args({mValue(a), mValue(b)})), "not found"); e.calls = f.calls; break; case 13: CHECK(bad(r, "o.twice", maybe(mValue("x"))), "wrong type"); break; } CHECK(same(f, e), "nothing else changed"); }
ENTRY(references) { Fns f; fill(f); Fns e(f); RESTProcess_t r; RESTProcess(r, "o", f); int a = sym_pick("a", 0, 1), v = small("v");
  switch (sym_pick("which", 0, 14)) { case 13: CHECK(val<int>(r.process("o.pick", args({mValue(a), mValue(2), mValue(v), mValue(99)}))) == v, "the first argument left over is assigned"); e.calls = a * 10 + 2; e.i = v; break; case 14: CHECK(val<int>(r.process("o.ref", args({mValue(v), mValue(98), mValue(99)}))) == v, "the first argument left over is assigned"); e.i = v; break; case 0: CHECK(val<int>(r.process("o.ref", none())) == 5, "value"); break; case 1: CHECK(val<int>(r.process("o.ref", maybe(mValue(v)))) == v, "assigned"); e.i = v; break; case 2: CHECK(val<int>(r.process("o.pick", args({mValue(a), mValue(2)}))) == 5, "value"); e.calls = a * 10 + 2; break; case 3: CHECK(val<int>(r.process("o.pick", args({mValue(a), mValue(2), mValue(v)}))) == v, "argument left over is assigned"); e.calls = a * 10 + 2; e.i = v; break; case 4: { Pt q = val<Pt>(r.process("o.ptRef", maybe(pt(v, 1)))); CHECK(q.x == v && q.y == 1, "assigned"); e.p = Pt(v, 1); break; } case 5: CHECK(val<int>(r.process("o.ptRef.y", none())) == 8, "member"); break; case 6: r.process("o.ptRef.y", maybe(mValue(v))); e.p.y = v; break; case 7: { Pt q = val<Pt>(r.process("o.elem", maybe(mValue(a)))); CHECK(q.x == e.v[a].x && q.y == e.v[a].y, "element"); break; } case 8: CHECK(val<int>(r.process("o.elem.x", maybe(mValue(a)))) == e.v[a].x, "member of a result"); break; case 9: CHECK(val<int>(r.process("o.elem.x", args({mValue(a), mValue(v)}))) == v, "set by the argument left over"); e.v[a].x = v; break; case 10: CHECK(val<int>(r.process("o.ptConst.x", none())) == 7 && val<int>(r.process("o.ptConst.sum", none())) == 78, "read"); break; case 11: CHECK(bad(r, "o.ptConst.x", maybe(mValue(v))) && bad(r, "o.ptConst", maybe(pt(v, v))), "constant"); break; case 12: CHECK(val<int>(r.process("o.elem.sum", maybe(mValue(a)))) == e.v[a].sum(), "method of a result"); break; } CHECK(same(f, e), "nothing else changed"); }
ENTRY(temporaries) { Fns f; fill(f); Fns e(f); RESTProcess_t r; RESTProcess(r, "o", f); int a = small("a"), v = small("v"); RPPtr p;
  switch (sym_pick("which", 0, 12)) { case 0: p = r.process("o.ptVal.x", none()); CHECK(val<int>(p) == 7, "member of a returned object"); break; case 1: p = r.process("o.ptVal.x", maybe(mValue(v))); CHECK(val<int>(p) == v, "set in the returned object"); break; case 2: p = r.process("o.mk.y", args({mValue(v), mValue(a)})); CHECK(val<int>(p) == a, "arguments are those of the method"); break; case 3: p = r.process("o.vec.@elem.1.y", none()); CHECK(val<int>(p) == 6, "element of a returned vector"); break; case 4: { p = r.process("o.vec.@elem.0", none()); Pt q = val<Pt>(p); CHECK(q.x == 3 && q.y == 4, "element"); break; } case 5: CHECK(val<unsigned>(r.process("o.vec.@size", none())) == 2, "size"); break; case 6: p = r.process("o.maps.@elem.k.y", none()); CHECK(val<int>(p) == 2, "element of a returned map"); break; case 7: p = r.process("o.shared.y", none()); CHECK(val<int>(p) == 4, "member of an object returned by pointer"); break; case 8: CHECK(val<int>(r.process("o.ptVal.sum", none())) == 78, "method of a returned object"); break; case 9: { Pt q = val<Pt>(r.process("o.ptVal", none())); CHECK(q.x == 7 && q.y == 8, "returned object"); break; } case 10: p = r.process("o.ptVal.rx", maybe(mValue(v))); CHECK(val<int>(p) == v, "reference into a returned object"); break; case 11: p = r.process("o.vec.@insert", maybe(pt(v, 1))); CHECK(val<std::vector<Pt>>(p).size() == 3, "inserted into the returned vector"); break; case 12: CHECK(words(r.process("o.maps.@keys", none())) == std::vector<std::string>{"k"}, "keys"); break; } CHECK(same(f, e), "nothing else changed"); }
static int freeFn(int a, int b) { return a * 7 + b; }
ENTRY(other) { RESTProcess_t r; Fns f; fill(f); RESTProcess(r, "o", f); RESTProcess(r, "free", &freeFn); std::function<int(int)> g = [](int i) { return i + 1; }; RESTProcess(r, "fn", g); int a = small("a"), b = small("b"); CHECK(val<int>(r.process("free", args({mValue(a), mValue(b)}))) == a * 7 + b, "free function"); CHECK(val<int>(r.process("fn", maybe(mValue(a)))) == a + 1, "function object"); RPPtr p = r["o.sub"]; CHECK(p && p->arity() == 2 && p->isConst() && !p->isObject(), "constant method"); p = r["o.pick"]; CHECK(p && p->arity() == 2 && !p->isConst(), "method"); CHECK(r["o.twice"]->isConst() && r["free"]->isConst(), "static and free functions"); std::vector<Signature> s = r["o.cat"]->signature(); CHECK(s.size() == 1 && s[0].ret == "std::string" && s[0].args.size() == 2 && s[0].args[1] == "int", "signature"); CHECK(val<std::string>(r.process("o.pick.@type", none())) == "int&", "type of a method is that of its result"); }
ENTRY(factory) { RESTProcess_t r; std::string made; int n = 0; bool cb = sym_pick("callback", 0, 1); if (cb) { r.addFactory<Made>("Made", [&](const std::string& s) { made = s; n++; }); r.addFactory<Made, int, std::string>("MadeFrom", [&](const std::string& s) { made = s; n++; }); } else { r.addFactory<Made>("Made"); r.addFactory<Made, int, std::string>("MadeFrom"); } int v = small("v"); r.process("Made", maybe(mValue("x"))); CHECK(!cb || (n == 1 && made == "x"), "called back"); CHECK(val<int>(r.process("x.v", none())) == 1 && val<int>(r.process("x.get", none())) == 1, "made"); r.process("MadeFrom", args({mValue("y"), mValue(v), mValue("str")})); CHECK(!cb || (n == 2 && made == "y"), "called back"); CHECK(val<int>(r.process("y.get", none())) == v && val<std::string>(r.process("y.s", none())) == "str", "made with the arguments"); r.process("y.v", maybe(mValue(42))); CHECK(val<int>(r.process("y.get", none())) == 42 && val<int>(r.process("x.get", none())) == 1, "distinct objects"); r.process("Made", maybe(mValue("y"))); CHECK(val<int>(r.process("y.get", none())) == 1, "replaced"); }
