// C23: maps and sets reached by name through RESTProcess
//@ std: c++17
//@ cd: RESTProcess pack json_pack xml_pack xsd_generate typeName
//@ gen: vrest.h -> vrestj.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ gen: vrest.h -> vrest.cd : -nodef -use_mbr_pointers -onbase -overload -respect_private -i $SRC RESTProcess
//@ bounds: maps by int and by string, to numbers, objects and vectors, and sets, of up to 2 entries; keys raw or quoted, present or not
#include "vrestc.h"
static std::string num(int i) { return std::string(1, char('0' + i)); }
static void fill(Maps& s, unsigned n) { for (unsigned i = 0; i < n; i++) { s.m[i + 1] = 10 + i; s.p[std::string(1, char('a' + i))] = Pt(i + 3, i + 5); s.s.insert(i + 1); s.mv[std::string(1, char('a' + i))] = std::vector<int>(i + 1, 7); } }
static bool same(const Maps& a, const Maps& b) { if (a.p.size() != b.p.size()) return false; for (auto i = a.p.begin(), j = b.p.begin(); i != a.p.end(); ++i, ++j) if (i->first != j->first || i->second.x != j->second.x || i->second.y != j->second.y) return false; return a.m == b.m && a.s == b.s && a.mv == b.mv && a.before == b.before && a.after == b.after; }
ENTRY(by_number) { unsigned n = sym_pick("n", 0, 2); Maps s; fill(s, n); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); int k = sym_pick("k", 0, 3); int v = small("v"); bool in = e.m.count(k), set = sym_pick("set", 0, 1); std::string at = std::string(sym_pick("nothrow", 0, 1) ? "o.m.@elemNoThrow." : "o.m.@elem.") + num(k); json_pack_t a = set ? json_pack_t(mValue(v)) : none(); if (set) { CHECK(val<int>(r.process(at, a)) == v, "assigned"); e.m[k] = v; } else if (in) CHECK(val<int>(r.process(at, a)) == e.m[k], "element"); else if (at[9] == 'N') { RPPtr p = r.process(at, a); CHECK(val<int>(p) == 0, "a default element"); } else CHECK(bad(r, at, a), "not found"); CHECK(same(s, e), "no other element"); }
ENTRY(by_name) { unsigned n = sym_pick("n", 0, 2); Maps s; fill(s, n); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); unsigned w = sym_pick("k", 0, 3); static const char* raws[] = {"a", "b", "c", "d.e"}; std::string k = raws[w]; std::string at = "o.p.@elem." + (w == 3 || sym_pick("quoted", 0, 1) ? "\"" + k + "\"" : k); int v = small("v"); bool in = e.p.count(k);
  switch (sym_pick("which", 0, 5)) { case 0: if (in) CHECK(val<int>(r.process(at + ".y", none())) == e.p[k].y, "member"); else CHECK(bad(r, at + ".y", none()), "not found"); break; case 1: if (in) { CHECK(val<int>(r.process(at + ".x", maybe(mValue(v)))) == v, "set a member"); e.p[k].x = v; } else CHECK(bad(r, at + ".x", maybe(mValue(v))), "not found"); break; case 2: if (in) CHECK(val<int>(r.process(at + ".sum", none())) == e.p[k].sum(), "method"); else CHECK(bad(r, at + ".sum", none()), "not found"); break; case 3: { Pt q = val<Pt>(r.process(at, json_pack_t(pt(v, 2)))); CHECK(q.x == v && q.y == 2, "assigned"); e.p[k] = Pt(v, 2); break; } case 4: if (in) { r.process(at + ".rx", maybe(mValue(v))); e.p[k].x = v; } break; case 5: if (in) { Pt q = val<Pt>(r.process(at, none())); CHECK(q.x == e.p[k].x && q.y == e.p[k].y, "element"); } else CHECK(bad(r, at, none()), "not found"); break; } CHECK(same(s, e), "no other element"); }
ENTRY(missing) { Maps s, e; RESTProcess_t r; RESTProcess(r, "o", s); Pt q = val<Pt>(r.process("o.p.@elemNoThrow.z", none())); CHECK(q.x == 0 && q.y == 0, "a default element"); CHECK(val<int>(r.process("o.p.@elemNoThrow.z.y", none())) == 0 && val<int>(r.process("o.p.@elemNoThrow.z.sum", none())) == 0, "of which members can be read"); CHECK(val<int>(r.process("o.p.@elemNoThrow.z.x", maybe(mValue(4)))) == 4, "and set"); CHECK(val<std::vector<int>>(r.process("o.mv.@elemNoThrow.z", none())).empty(), "a default element"); static const char* paths[] = {"o.m.@elem.x", "o.m.@elemNoThrow.x", "o.m.@elem.1z", "o.m.@elem.", "o.p.@elem.\"z", "o.nosuch", "o.m.nosuch", "o.p.@elem.z.y", "o.m.@elem.[1"}; s.m[0] = 4; e.m[0] = 4; CHECK(bad(r, paths[sym_pick("path", 0, 8)], none()), "refused"); CHECK(same(s, e), "unchanged"); }
ENTRY(in_nested) { Maps s; fill(s, 2); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); int v = small("v"); unsigned i = sym_pick("i", 0, 2); std::string k(1, char('a' + i)), at = "o.mv.@elem." + k; if (i == 2) { CHECK(bad(r, at + ".@elem.0", none()), "not found"); return; } switch (sym_pick("which", 0, 4)) { case 0: CHECK(val<int>(r.process(at + ".@elem." + num(i), maybe(mValue(v)))) == v, "element of an element"); e.mv[k][i] = v; break; case 1: CHECK(val<std::vector<int>>(r.process(at + ".@insert", maybe(mValue(v)))).back() == v, "inserted"); e.mv[k].push_back(v); break; case 2: r.process(at + ".@erase", maybe(mValue(0))); e.mv[k].erase(e.mv[k].begin()); break; case 3: CHECK(val<unsigned>(r.process(at + ".@size", none())) == i + 1, "size"); break; case 4: CHECK(bad(r, at + ".@elem.5", maybe(mValue(v))), "out of range"); break; } CHECK(same(s, e), "as expected"); }
ENTRY(grow) { unsigned n = sym_pick("n", 0, 2); Maps s; fill(s, n); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); int k = sym_pick("k", 0, 3); int v = small("v");
  switch (sym_pick("which", 0, 6)) { case 0: if (e.m.count(k)) CHECK(bad(r, "o.m.@insert", maybe(entry(mValue(k), mValue(v)))), "already there"); else { e.m[k] = v; CHECK((val<std::map<int, int>>(r.process("o.m.@insert", maybe(entry(mValue(k), mValue(v)))))) == e.m, "inserted"); } break; case 1: e.m.erase(k); r.process("o.m.@erase", maybe(mValue(k))); break; case 2: if (e.s.count(k)) CHECK(bad(r, "o.s.@insert", maybe(mValue(k))), "already there"); else { e.s.insert(k); r.process("o.s.@insert", maybe(mValue(k))); } break; case 3: e.s.erase(k); r.process("o.s.@erase", maybe(mValue(k))); break; case 4: { std::string w(1, char('a' + k)); e.p.erase(w); r.process("o.p.@erase", maybe(mValue(w))); break; } case 5: { std::string w(1, char('a' + k)); if (!e.p.count(w)) { e.p[w] = Pt(v, 1); r.process("o.p.@insert", maybe(entry(mValue(w), pt(v, 1)))); } break; } case 6: CHECK(bad(r, "o.cm.@insert", maybe(entry(mValue(k), mValue(v)))) && bad(r, "o.cm.@erase", maybe(mValue(k))), "constant"); break; } CHECK(same(s, e), "as expected"); CHECK(val<unsigned>(r.process("o.m.@size", none())) == e.m.size() && val<unsigned>(r.process("o.s.@size", none())) == e.s.size() && val<unsigned>(r.process("o.p.@size", none())) == e.p.size(), "size"); std::vector<int> ks; for (auto& i : e.m) ks.push_back(i.first); CHECK(val<std::vector<int>>(r.process("o.m.@keys", none())) == ks, "keys"); std::vector<std::string> ws; for (auto& i : e.p) ws.push_back(i.first); CHECK(words(r.process("o.p.@keys", none())) == ws, "keys"); }
ENTRY(whole) { unsigned n = sym_pick("n", 0, 2), m = sym_pick("m", 0, 2); Maps s; fill(s, n); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); switch (sym_pick("which", 0, 3)) { case 0: { mArray a; e.m.clear(); for (unsigned i = 0; i < m; i++) { int v = small("v"); a.push_back(entry(mValue(int(i + 5)), mValue(v))); e.m[i + 5] = v; } CHECK((val<std::map<int, int>>(r.process("o.m", args({mValue(a)})))) == e.m, "assigned"); break; } case 1: { mArray a; e.s.clear(); for (unsigned i = 0; i < m; i++) { a.push_back(mValue(int(i + 5))); e.s.insert(i + 5); } r.process("o.s", args({mValue(a)})); break; } case 2: { mArray a; e.p.clear(); for (unsigned i = 0; i < m; i++) { a.push_back(entry(mValue(word(i)), pt(i, 2))); e.p[word(i)] = Pt(i, 2); } r.process("o.p", args({mValue(a)})); break; } case 3: CHECK((val<std::map<int, int>>(r.process("o.m", none()))) == s.m && val<std::set<int>>(r.process("o.s", none())) == s.s, "read"); break; } CHECK(same(s, e), "as expected"); }
ENTRY(sets) { unsigned n = sym_pick("n", 0, 2); Maps s; fill(s, n); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); int k = sym_pick("k", 0, 3); std::string at = "o.s.@elem." + num(k); switch (sym_pick("which", 0, 1)) { case 0: if (e.s.count(k)) CHECK(val<int>(r.process(at, none())) == k, "element"); else CHECK(bad(r, at, none()), "not found"); break; case 1: r.process(at, json_pack_t(mValue(true))); e.s.insert(k); break; } CHECK(same(s, e), "as expected"); }
ENTRY(handles) { unsigned n = sym_pick("n", 0, 2); Maps s; fill(s, n); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); int k = sym_pick("k", 0, 3), v = small("v"); json_pack_t jk{}, jv{}; static_cast<mValue&>(jk) = mValue(k); static_cast<mValue&>(jv) = mValue(v); RPPtr p = r.process("o.m", none()), t = r.process("o.s", none()); CHECK(p->size() == n && p->isObject(), "size"); CHECK(p->contains(jk) == (e.m.count(k) == 1) && t->contains(jk) == (e.s.count(k) == 1), "contains"); std::vector<int> ks; for (auto& i : e.m) ks.push_back(i.first); CHECK(val<std::vector<int>>(p->keys()) == ks, "keys"); if (e.m.count(k)) CHECK(val<int>(p->getElem(jk)) == e.m[k], "element"); CHECK(val<int>(p->setElem(jk, jv)) == v, "set"); e.m[k] = v; CHECK(same(s, e), "set"); p->erase(jk); e.m.erase(k); CHECK(same(s, e), "erased"); p->insert(json_pack_t(entry(mValue(k), mValue(v)))); e.m[k] = v; CHECK(same(s, e), "inserted"); t->erase(jk); e.s.erase(k); CHECK(same(s, e), "erased"); CHECK(p->list().count(".@keys") == 1, "commands"); CHECK(p->type() == "std::map<int,int>", "type"); }
// a container lists its commands
static std::string names(const RESTProcess_t& l) { std::string r; for (auto& i : l) r += i.first; return r; }
ENTRY(commands) { unsigned n = sym_pick("n", 0, 2); Maps s; fill(s, n); Maps e(s); RESTProcess_t r; RESTProcess(r, "o", s); RPPtr p = r.process("o.m", none()), t = r.process("o.s", none()); RESTProcess_t l = p->list(), lt = t->list(); CHECK(names(l) == ".@elem.@elemNoThrow.@erase.@insert.@keys.@size" && names(lt) == names(l) && words(r.process("o.m.@list", none())) == (std::vector<std::string>{".@elem", ".@elemNoThrow", ".@erase", ".@insert", ".@keys", ".@size"}), "every command, and no other");
  CHECK(val<unsigned>(l.process(".@size", none())) == n && val<unsigned>(lt.process(".@size", none())) == n, "size"); CHECK(same(s, e), "as expected"); }
