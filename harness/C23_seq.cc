// C23: sequences reached by name through RESTProcess
//@ std: c++17
//@ cd: RESTProcess pack json_pack xml_pack xsd_generate typeName
//@ gen: vrest.h -> vrestj.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ gen: vrest.h -> vrest.cd : -nodef -use_mbr_pointers -onbase -overload -respect_private -i $SRC RESTProcess
//@ bounds: vectors, lists, deques, vectors of objects and of vectors, of up to 3 elements; indices -1 to 4; every value of an element; 12 malformed paths
#include "vrestc.h"
static std::string num(int i) { return i < 0 ? "-1" : std::string(1, char('0' + i)); }
static void fill(Seq& s, unsigned n) { for (unsigned i = 0; i < n; i++) { s.v.push_back(10 + i); s.l.push_back(std::string(1, char('a' + i))); s.q.push_back(20 + i); s.p.push_back(Pt(i, i + 5)); s.vv.push_back(std::vector<int>(i, 7)); } }
static bool same(const Seq& a, const Seq& b) { if (a.p.size() != b.p.size()) return false; for (unsigned i = 0; i < a.p.size(); i++) if (a.p[i].x != b.p[i].x || a.p[i].y != b.p[i].y) return false; return a.v == b.v && a.l == b.l && a.q == b.q && a.vv == b.vv && a.cv == b.cv && a.before == b.before && a.after == b.after; }
ENTRY(elements) { unsigned n = sym_pick("n", 0, 3); Seq s; fill(s, n); Seq e(s); RESTProcess_t r; RESTProcess(r, "o", s); int k = sym_pick("k", 0, 5) - 1; int v = small("v"); bool in = k >= 0 && unsigned(k) < n, set = sym_pick("set", 0, 1); std::string i = num(k); json_pack_t a = set ? maybe(mValue(v)) : none();
  switch (sym_pick("which", 0, 4)) {
    case 0: if (in) { CHECK(val<int>(r.process("o.v.@elem." + i, a)) == (set ? v : 10 + k), "element"); if (set) e.v[k] = v; } else CHECK(bad(r, "o.v.@elem." + i, a), "out of range"); break;
    case 1: if (in) { CHECK(val<int>(r.process("o.q.@elem." + i, a)) == (set ? v : 20 + k), "element"); if (set) e.q[k] = v; } else CHECK(bad(r, "o.q.@elem." + i, a), "out of range"); break;
    case 2: { std::string w(2, 'w'); if (in) { CHECK(val<std::string>(r.process("o.l.@elem." + i, set ? maybe(mValue(w)) : none())) == (set ? w : std::string(1, char('a' + k))), "element"); if (set) *std::next(e.l.begin(), k) = w; } else CHECK(bad(r, "o.l.@elem." + i, a), "out of range"); break; }
    case 3: if (in) { CHECK(val<int>(r.process("o.p.@elem." + i + ".y", a)) == (set ? v : k + 5), "member of an element"); if (set) e.p[k].y = v; CHECK(val<int>(r.process("o.p.@elem." + i + ".sum", none())) == e.p[k].sum(), "method of an element"); Pt p = val<Pt>(r.process("o.p.@elem." + i, none())); CHECK(p.x == k && p.y == e.p[k].y, "element"); } else CHECK(bad(r, "o.p.@elem." + i + ".y", a), "out of range"); break;
    case 4: if (in) CHECK(val<int>(r.process("o.v.@elemNoThrow." + i, a)) == (set ? v : 10 + k), "element"); else if (k >= 0) CHECK(bool(r.process("o.v.@elemNoThrow." + i, a)), "no exception"); if (in && set) e.v[k] = v; break; } CHECK(same(s, e), "no other element"); }
ENTRY(grow) { unsigned n = sym_pick("n", 0, 3); Seq s; fill(s, n); Seq e(s); RESTProcess_t r; RESTProcess(r, "o", s); int k = sym_pick("k", 0, 4); int v = small("v");
  switch (sym_pick("which", 0, 9)) {
    case 0: e.v.push_back(v); CHECK(val<std::vector<int>>(r.process("o.v.@insert", maybe(mValue(v)))) == e.v, "inserted"); break; case 1: e.l.push_back("w"); CHECK(val<std::list<std::string>>(r.process("o.l.@insert", maybe(mValue("w")))) == e.l, "inserted"); break; case 2: e.p.push_back(Pt(v, 2)); r.process("o.p.@insert", maybe(pt(v, 2))); break; case 3: e.q.push_back(v); r.process("o.q.@insert", maybe(mValue(v))); break;
    case 4: if (unsigned(k) < n) e.v.erase(e.v.begin() + k); CHECK(val<std::vector<int>>(r.process("o.v.@erase", maybe(mValue(k)))) == e.v, "erased"); break; case 5: if (unsigned(k) < n) e.l.erase(std::next(e.l.begin(), k)); r.process("o.l.@erase", maybe(mValue(k))); break; case 6: if (unsigned(k) < n) e.q.erase(e.q.begin() + k); r.process("o.q.@erase", maybe(mValue(k))); break; case 7: if (unsigned(k) < n) e.p.erase(e.p.begin() + k); r.process("o.p.@erase", maybe(mValue(k))); break;
    case 8: if (n) { CHECK(bad(r, "o.v.@erase", maybe(mValue("x"))), "no index"); r.process("o.v.@erase", maybe(mValue(-1))); } break; case 9: CHECK(bad(r, "o.cv.@insert", maybe(mValue(v))) && bad(r, "o.cv.@erase", maybe(mValue(0))), "constant"); break; } CHECK(same(s, e), "as expected"); CHECK(val<unsigned>(r.process("o.v.@size", none())) == e.v.size() && val<unsigned>(r.process("o.l.@size", none())) == e.l.size() && val<unsigned>(r.process("o.p.@size", none())) == e.p.size(), "size"); }
ENTRY(whole) { unsigned n = sym_pick("n", 0, 2), m = sym_pick("m", 0, 3); Seq s; fill(s, n); Seq e(s); RESTProcess_t r; RESTProcess(r, "o", s); std::vector<int> w; for (unsigned i = 0; i < m; i++) w.push_back(small("w")); switch (sym_pick("which", 0, 5)) { case 0: e.v = w; CHECK(val<std::vector<int>>(r.process("o.v", args({ints(w)}))) == w, "assigned"); break; case 1: e.q.assign(w.begin(), w.end()); r.process("o.q", args({ints(w)})); break; case 2: { mArray a; e.l.clear(); for (unsigned i = 0; i < m; i++) { a.push_back(mValue(word(i))); e.l.push_back(word(i)); } r.process("o.l", args({mValue(a)})); break; } case 3: { mArray a; e.p.clear(); for (int i : w) { a.push_back(pt(i, 3)); e.p.push_back(Pt(i, 3)); } r.process("o.p", args({mValue(a)})); break; } case 4: CHECK(val<std::vector<int>>(r.process("o.v", none())) == s.v && val<std::list<std::string>>(r.process("o.l", none())) == s.l && val<std::vector<std::vector<int>>>(r.process("o.vv", none())) == s.vv, "read"); break; case 5: CHECK(bad(r, "o.cv", args({ints(w)})), "constant"); break; } CHECK(same(s, e), "as expected"); }
ENTRY(in_nested) { Seq s; fill(s, 3); Seq e(s); RESTProcess_t r; RESTProcess(r, "o", s); int v = small("v"); unsigned i = sym_pick("i", 0, 2), k = sym_pick("k", 0, 2); std::string at = "o.vv.@elem." + num(i); switch (sym_pick("which", 0, 4)) { case 0: if (k < i) { CHECK(val<int>(r.process(at + ".@elem." + num(k), maybe(mValue(v)))) == v, "element of an element"); e.vv[i][k] = v; } else CHECK(bad(r, at + ".@elem." + num(k), maybe(mValue(v))), "out of range"); break; case 1: r.process(at + ".@insert", maybe(mValue(v))); e.vv[i].push_back(v); break; case 2: r.process(at + ".@erase", maybe(mValue(int(k)))); if (k < i) e.vv[i].erase(e.vv[i].begin() + k); break; case 3: CHECK(val<unsigned>(r.process(at + ".@size", none())) == i, "size"); break; case 4: r.process(at, args({ints({v, 1})})); e.vv[i].assign({v, 1}); break; } CHECK(same(s, e), "as expected"); }
ENTRY(malformed) { Seq s; fill(s, 2); Seq e(s); RESTProcess_t r; RESTProcess(r, "o", s); static const char* paths[] = {"o.v.@elem", "o.v.@elem.", "o.v.@elem.x", "o.v.@elem..", "o.v.@elem.99999999999999999999", "o.v.nosuch", "o.v.@elem.0.x", "o.p.@elem.0.z", "o.p.@elem.1.", "o.l.@elem.-2", "o.v.@elem.2", "o.vv.@elem.0.@elem.0"}; CHECK(bad(r, paths[sym_pick("path", 0, 11)], none()), "refused"); CHECK(same(s, e), "unchanged"); }
ENTRY(handles) { unsigned n = sym_pick("n", 0, 3); Seq s; fill(s, n); Seq e(s); RESTProcess_t r; RESTProcess(r, "o", s); int v = small("v"); unsigned k = sym_pick("k", 0, 3); RPPtr p = r.process("o.v", none()), l = r.process("o.l", none()); CHECK(p->size() == n && l->size() == n && p->isObject() && !p->isConst(), "size"); json_pack_t ix, jv; static_cast<mValue&>(ix) = mValue(int(k)); static_cast<mValue&>(jv) = mValue(v); if (k < n) { CHECK(val<int>(p->getElem(ix)) == int(10 + k), "element"); CHECK(val<int>(p->setElem(ix, jv)) == v, "set"); e.v[k] = v; CHECK(val<std::string>(l->getElem(ix)) == std::string(1, char('a' + k)), "element"); } else CHECK(throws([&] { p->getElem(ix); }) && throws([&] { p->setElem(ix, jv); }) && throws([&] { l->getElem(ix); }), "out of range"); CHECK(same(s, e), "as expected"); p->insert(jv); e.v.push_back(v); CHECK(same(s, e), "inserted"); p->erase(ix); if (k < e.v.size()) e.v.erase(e.v.begin() + k); CHECK(s.v == e.v, "erased"); l->erase(ix); if (k < e.l.size()) e.l.erase(std::next(e.l.begin(), k)); CHECK(same(s, e), "erased from a list"); CHECK(p->list().count(".@elem") && p->list().count(".@size") && p->list().count(".@insert") && p->list().count(".@erase"), "commands"); CHECK(p->type() == "std::vector<int>", "type"); }
// a container lists its commands
static std::string names(const RESTProcess_t& l) { std::string r; for (auto& i : l) r += i.first; return r; }
ENTRY(commands) { unsigned n = sym_pick("n", 0, 3); Seq s; fill(s, n); Seq e(s); RESTProcess_t r; RESTProcess(r, "o", s); RPPtr p = r.process("o.v", none()); RESTProcess_t l = p->list(); CHECK(names(l) == ".@elem.@elemNoThrow.@erase.@insert.@size" && words(r.process("o.v.@list", none())) == (std::vector<std::string>{".@elem", ".@elemNoThrow", ".@erase", ".@insert", ".@size"}), "every command, and no other");
  CHECK(val<unsigned>(l.process(".@size", none())) == n, "size"); CHECK(same(s, e), "as expected"); }
