// C23: attributes reached by name through RESTProcess
//@ std: c++17
//@ cd: RESTProcess pack json_pack xml_pack xsd_generate typeName
//@ gen: vrest.h -> vrestj.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ gen: vrest.h -> vrest.cd : -nodef -use_mbr_pointers -onbase -overload -respect_private -i $SRC RESTProcess
//@ bounds: an object of 14 attributes, a base, a nested object; every value of a numeric attribute, strings up to 2 characters; 21 paths to nowhere
#include "vrestc.h"
int vr::Attr::si = 3;
static bool same(const Attr& a, const Attr& b) { return a.before == b.before && a.after == b.after && a.i == b.i && a.d == b.d && a.b == b.b && a.s == b.s && a.ch == b.ch && a.u8 == b.u8 && a.sh == b.sh && a.ll == b.ll && a.c == b.c && a.ci == b.ci && a.p.x == b.p.x && a.p.y == b.p.y && a.inherited == b.inherited; }
template <class T, class B, class V> static void attr(RESTProcess_t& r, Attr& a, T B::*m, const char* path, const V& v, const mValue& j) {
  Attr e(a); T old = a.*m; bool set = sym_pick("set", 0, 1); RPPtr p = r.process(path, set ? maybe(j) : sym_pick("empty list", 0, 1) ? args({}) : none()); T now = set ? T(v) : old; CHECK(val<T>(p) == now, "returns the value"); CHECK(a.*m == now, "set if given, else left alone"); CHECK(val<T>(r.process(path, none())) == now, "reads back"); e.*m = now; CHECK(same(a, e), "no other attribute"); CHECK(p->isObject() && !p->isConst() && p->arity() == 0, "an object"); }
ENTRY(attributes) { Attr a; a.i = small("old"); a.s = "old"; RESTProcess_t r; RESTProcess(r, "o", a);
  switch (sym_pick("which", 0, 11)) { case 0: { int v = sym<int>("v"); attr(r, a, &Attr::i, "o.i", v, mValue(v)); break; } case 1: { double v = sym<int>("v") / 4.0; attr(r, a, &Attr::d, "o.d", v, mValue(v)); break; } case 2: { bool v = sym<bool>("v"); attr(r, a, &Attr::b, "o.b", v, mValue(v)); break; } case 3: { std::string v = word(sym_pick("n", 0, 2)); attr(r, a, &Attr::s, "o.s", v, mValue(v)); break; } case 4: { char v = char(sym_range("v", 33, 126)); attr(r, a, &Attr::ch, "o.ch", v, mValue(std::string(1, v))); break; } case 5: { int v = sym<unsigned char>("v"); attr(r, a, &Attr::u8, "o.u8", v, mValue(v)); break; } case 6: { int v = sym<short>("v"); attr(r, a, &Attr::sh, "o.sh", v, mValue(v)); break; } case 7: { boost::int64_t v = sym<boost::int64_t>("v"); attr(r, a, &Attr::ll, "o.ll", v, mValue(v)); break; } case 8: { int v = sym<int>("v"); attr(r, a, &Attr::before, "o.before", v, mValue(v)); break; } case 9: { int v = sym<int>("v"); attr(r, a, &Attr::inherited, "o.inherited", v, mValue(v)); break; } case 10: { int v = sym<int>("v"); attr(r, a, &Attr::after, "o.after", v, mValue(v)); break; } case 11: { int v = sym<int>("v"); attr(r, a, &Attr::i, "o.i", v, mValue(boost::int64_t(v))); break; } } }
ENTRY(enums) { Attr a; a.c = blue; Attr e(a); RESTProcess_t r; RESTProcess(r, "o", a); static const char* names[] = {"red", "green", "blue"}; static const Col cols[] = {red, green, blue}; unsigned k = sym_pick("k", 0, 2); bool set = sym_pick("set", 0, 1); if (!set) k = 2; CHECK(val<std::string>(r.process("o.c", set ? maybe(mValue(names[k])) : none())) == names[k], "returns the name"); CHECK(a.c == cols[k], "set if given, else left alone"); e.c = cols[k]; CHECK(same(a, e), "no other attribute"); CHECK(words(r.process("@enum.@list", none())) == std::vector<std::string>{"::vr::Col"}, "the enums known about"); CHECK((words(r.process("@enum.::vr::Col", none())) == std::vector<std::string>{"red", "green", "blue"}), "their enumerators"); CHECK(val<std::string>(r.process("o.c.@type", none())) == "::vr::Col", "type"); CHECK(same(a, e), "asking changes nothing"); }
ENTRY(conversions) { Attr a; a.i = 5; a.s = "old"; Attr e(a); RESTProcess_t r; RESTProcess(r, "o", a); int v = small("v"); bool b = sym<bool>("b");
  switch (sym_pick("which", 0, 10)) { case 0: r.process("o.d", maybe(mValue(v))); e.d = v; break; case 1: r.process("o.i", maybe(mValue(v + 0.5))); e.i = int(v + 0.5); break; case 2: r.process("o.i", maybe(mValue(b))); e.i = b; break; case 3: r.process("o.b", maybe(mValue(v))); e.b = v != 0; break; case 4: CHECK(bad(r, "o.i", maybe(mValue("7"))), "no number"); break; case 5: CHECK(bad(r, "o.ch", maybe(mValue(word(sym_pick("n", 0, 1) * 2)))), "no character"); break; case 6: CHECK(bad(r, "o.p", maybe(mValue(v))), "no object"); break; case 7: CHECK(bad(r, "o.ci", maybe(mValue(v))), "not to be altered"); break; case 8: CHECK(val<int>(r.process("o.ci", none())) == 7, "but can be read"); break; case 9: r.process("o.i", none()); break; case 10: CHECK(bad(r, "o.d", maybe(mValue("x"))), "no number"); break; } CHECK(same(a, e), "as expected"); }
ENTRY(nested) { Attr a; a.p = Pt(3, 4); Attr e(a); RESTProcess_t r; RESTProcess(r, "o", a); int v = small("v"), w = small("w");
  switch (sym_pick("which", 0, 10)) { case 0: CHECK(val<int>(r.process("o.p.x", maybe(mValue(v)))) == v, "member"); e.p.x = v; break; case 1: CHECK(val<int>(r.process("o.p.y", maybe(mValue(v)))) == v, "member"); e.p.y = v; break; case 2: CHECK(val<int>(r.process("o.p.y", none())) == 4, "member"); break; case 3: { Pt q = val<Pt>(r.process("o.p", maybe(pt(v, w)))); CHECK(q.x == v && q.y == w, "object"); e.p = Pt(v, w); break; } case 4: CHECK(val<int>(r.process("o.p.sum", none())) == 34, "method"); break; case 5: CHECK(val<int>(r.process("o.p.rx", maybe(mValue(v)))) == v, "assign through a reference"); e.p.x = v; break; case 6: CHECK(isNull(r.process("o.p.put", args({mValue(v), mValue(w)}))), "no result"); e.p = Pt(v, w); break; case 7: CHECK(val<int>(r.process("o.bget", none())) == 1, "inherited method"); break; case 8: { Attr::si = 3; CHECK(val<int>(r.process("o.si", maybe(mValue(v)))) == v && Attr::si == v, "static"); break; } case 9: { Pt q = val<Pt>(r.process("o.p", none())); CHECK(q.x == 3 && q.y == 4, "object"); break; } case 10: { mObject o; o["y"] = mValue(w); r.process("o.p", maybe(mValue(o))); e.p.y = w; break; } } CHECK(same(a, e), "as expected"); }
ENTRY(nowhere) { Attr a, e; RESTProcess_t r; RESTProcess(r, "o", a); static const char* paths[] = {"", "o.", "o..", ".", "..", "o.nosuch", "nosuch", "o.i.x", "o.p.z", "o.p.", "o.hidden", "o.hid", "p", "oo", "o.ii", "O", "o.i.@elem", "o.i.@size.x", "o.p.x.y", "@enum.nosuch", "o.@elem.0"}; std::string path = paths[sym_pick("path", 0, 20)]; CHECK(bad(r, path, sym_pick("a", 0, 1) ? json_pack_t(mValue(small("v"))) : none()), "not found"); CHECK(same(a, e), "nothing changed"); CHECK(val<int>(r.process("o.i", none())) == 0, "others are still found"); }
ENTRY(meta) { Attr a, e; RESTProcess_t r; RESTProcess(r, "o", a); CHECK(val<std::string>(r.process("o.i.@type", none())) == "int" && val<std::string>(r.process("o.@type", none())) == "::vr::Attr" && val<std::string>(r.process("o.s.@type", none())) == "std::string" && val<std::string>(r.process("o.p.x.@type", none())) == "int" && val<std::string>(r.process("o.bget.@type", none())) == "int" && val<std::string>(r.process("o.ci.@type", none())) == "const int", "types");
  std::vector<Signature> s = val<std::vector<Signature>>(r.process("o.i.@signature", none())); CHECK(s.size() == 2 && s[0].ret == "int" && s[0].args.empty() && s[1].ret == "int" && s[1].args == std::vector<std::string>{"int"}, "getter and setter"); s = val<std::vector<Signature>>(r.process("o.p.put.@signature", none())); CHECK(s.size() == 1 && s[0].ret == "void" && (s[0].args == std::vector<std::string>{"int", "int"}), "method");
  std::vector<std::string> l = words(r.process("o.p.@list", none())); CHECK((l == std::vector<std::string>{".put", ".rx", ".sum", ".x", ".y"}), "members"); CHECK(words(r.process("o.i.@list", none())).empty(), "no members"); bool found = false, hidden = false; l = words(r.process("o.@list", none())); for (auto& i : l) { if (i == ".inherited") found = true; if (i == ".hidden" || i == ".hid") hidden = true; } CHECK(found && !hidden, "members"); CHECK(same(a, e), "asking changes nothing"); }
ENTRY(constant) { Attr o; o.p = Pt(3, 4); o.s = "old"; const Attr& a = o; Attr e(o); RESTProcess_t r; RESTProcess(r, "o", a); int v = small("v"); CHECK(val<int>(r.process("o.p.x", none())) == 3 && val<int>(r.process("o.p.sum", none())) == 34 && val<int>(r.process("o.bget", none())) == 1 && val<std::string>(r.process("o.s", none())) == "old", "can be read"); CHECK(r.process("o.i", none())->isConst(), "constant"); static const char* paths[] = {"o.i", "o.d", "o.b", "o.ll", "o.p.x", "o.inherited", "o.ci", "o.u8"}; CHECK(bad(r, paths[sym_pick("path", 0, 7)], maybe(mValue(v))), "not to be altered"); CHECK(bad(r, "o.s", maybe(mValue("new"))) && bad(r, "o.p", maybe(pt(v, v))), "not to be altered"); CHECK(throws([&] { r.process("o.p.rx", maybe(mValue(v))); }) && throws([&] { r.process("o.p.put", args({mValue(v), mValue(v)})); }), "only constant methods"); CHECK(same(o, e), "unchanged"); }
ENTRY(registry) { Attr a, b; a.i = 1; b.i = 2; RESTProcess_t r; RESTProcess(r, "a", a); RESTProcess(r, "b.c", b); int v = small("v"); CHECK(val<int>(r.process("a.i", none())) == 1 && val<int>(r.process("b.c.i", none())) == 2, "each under its name"); r.process("b.c.i", maybe(mValue(v))); CHECK(a.i == 1 && b.i == v, "just that one"); RESTProcess(r, "a", b); CHECK(val<int>(r.process("a.i", none())) == v, "a name used again refers to the later object"); Pt p(8, 9); RESTProcess_t m(p); CHECK(val<int>(m.process(".x", none())) == 8 && val<int>(m.process(".sum", none())) == 89, "members of an object"); RPPtr q = r.process("b.c", none()); CHECK(q->getObject<Attr>() == &b && !q->getObject<Pt>(), "the object referred to"); CHECK(val<int>(q->process(".i", none())) == v, "path relative to a result"); q->process(".p.y", maybe(mValue(77))); CHECK(b.p.y == 77, "path relative to a result"); RESTProcess_t l = q->list(); CHECK(l.count(".i") == 1 && l.count(".p.x") == 1 && l.count(".hidden") == 0, "members"); }
ENTRY(hiding) { Hide h; RESTProcess_t r; RESTProcess(r, "o", h); int v = small("v"); CHECK(val<int>(r.process("o.x", none())) == 2 && val<std::string>(r.process("o.s", none())) == "d", "the most derived"); r.process("o.x", maybe(mValue(v))); r.process("o.s", maybe(mValue("new"))); r.process("o.v.@insert", maybe(mValue(v))); CHECK(h.x == v && h.s == "new" && h.v.size() == 1 && h.v[0] == v, "set"); CHECK(h.HideBase::x == 1 && h.HideBase::s == "b" && h.HideBase::v.empty(), "not the hidden"); CHECK(val<int>(r.process("o.f", none())) == 3 && val<int>(r.process("o.g", none())) == 2, "methods"); }
