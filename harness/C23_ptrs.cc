// C23: pointers and arrays reached by name through RESTProcess
//@ std: c++17
//@ cd: RESTProcess pack json_pack xml_pack xsd_generate typeName
//@ gen: vrest.h -> vrestj.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ gen: vrest.h -> vrest.cd : -nodef -use_mbr_pointers -onbase -overload -respect_private -i $SRC RESTProcess
//@ bounds: shared, unique and weak pointers, null or not, also in vectors and maps; arrays of 2 and 3 numbers, objects, strings, and 2x2
#include "vrestc.h"
static std::string num(int i) { return i < 0 ? "-1" : std::string(1, char('0' + i)); }
ENTRY(pointers) { Ptrs o; bool has = sym<bool>("has"); if (has) { o.s = std::make_shared<Pt>(3, 4); o.u.reset(new int(5)); o.w = o.s; } RESTProcess_t r; RESTProcess(r, "o", o); int v = small("v"); const char* n = sym_pick("weak", 0, 1) ? "o.w" : "o.s"; std::string at(n);
  switch (sym_pick("which", 0, 7)) { case 0: { RPPtr p = r.process(at, none()); if (has) { Pt q = val<Pt>(p); CHECK(q.x == 3 && q.y == 4, "target"); } else CHECK(isNull(p), "null"); break; } case 1: { RPPtr p = r.process(at + ".x", none()); if (has) CHECK(val<int>(p) == 3, "member"); else CHECK(isNull(p), "null"); break; } case 2: { RPPtr p = r.process(at + ".x", maybe(mValue(v))); if (has) CHECK(val<int>(p) == v && o.s->x == v && o.s->y == 4, "set"); else CHECK(isNull(p) && !o.s, "null"); break; } case 3: { RPPtr p = r.process(at, maybe(pt(v, 1))); if (has) CHECK(o.s->x == v && o.s->y == 1, "assigned"); else CHECK(isNull(p) && !o.s, "null"); break; } case 4: { RPPtr p = r.process(at + ".sum", none()); if (has) CHECK(val<int>(p) == 34, "method"); else CHECK(isNull(p), "null"); break; } case 5: { RPPtr p = r.process("o.u", sym_pick("set", 0, 1) ? maybe(mValue(v)) : none()); if (has) CHECK(val<int>(p) == *o.u && (*o.u == 5 || *o.u == v), "unique"); else CHECK(isNull(p) && !o.u, "null"); break; } case 6: CHECK(val<std::string>(r.process("o.s.@type", none())) == typeName<std::shared_ptr<Pt> >() && val<std::string>(r.process("o.w.@type", none())) == typeName<std::weak_ptr<Pt> >() && val<std::string>(r.process("o.u.@type", none())) == typeName<std::unique_ptr<int> >(), "types"); break; case 7: CHECK(words(r.process(at + ".@list", none())).size() == (has ? 5 : 0), "members"); break; } CHECK(o.before == 11 && o.after == 12 && bool(o.s) == has && bool(o.u) == has, "nothing else changed"); }
ENTRY(expired) { Ptrs o; o.s = std::make_shared<Pt>(3, 4); o.w = o.s; RESTProcess_t r; RESTProcess(r, "o", o); CHECK(val<int>(r.process("o.w.y", none())) == 4, "target"); if (sym_pick("replaced", 0, 1)) { o.s = std::make_shared<Pt>(5, 6); CHECK(val<int>(r.process("o.s.y", none())) == 6, "the present target"); } else { r.process("o.s", none()); o.s.reset(); CHECK(isNull(r.process("o.s.y", none())), "null"); } CHECK(isNull(r.process("o.w", none())) && isNull(r.process("o.w.y", maybe(mValue(3)))), "expired"); }
ENTRY(contained) { Ptrs o; std::shared_ptr<Pt> t = std::make_shared<Pt>(3, 4); o.v.push_back(nullptr); o.v.push_back(t); o.m[1] = t; o.m[2] = nullptr; RESTProcess_t r; RESTProcess(r, "o", o); int v = small("v"); switch (sym_pick("which", 0, 5)) { case 0: CHECK(val<int>(r.process("o.v.@elem.1.x", maybe(mValue(v)))) == v && t->x == v, "element"); break; case 1: CHECK(isNull(r.process("o.v.@elem.0.x", maybe(mValue(v)))), "null element"); break; case 2: CHECK(val<int>(r.process("o.m.@elem.1.x", maybe(mValue(v)))) == v && t->x == v, "element"); break; case 3: CHECK(isNull(r.process("o.m.@elem.2.x", maybe(mValue(v)))), "null element"); break; case 4: CHECK(val<int>(r.process("o.m.@elem.1.sum", none())) == 34, "method"); break; case 5: CHECK(isNull(r.process("o.v.@elem.0", none())) && isNull(r.process("o.m.@elem.2", none())), "null"); break; } CHECK(!o.v[0] && o.v[1] == t && o.m[1] == t && !o.m[2] && t->y == 4, "the same pointers"); }
ENTRY(arrays) { Arrays o; Arrays e(o); RESTProcess_t r; RESTProcess(r, "o", o); int v = small("v"); int k = sym_pick("k", 0, 4) - 1; bool set = sym_pick("set", 0, 1); json_pack_t a = set ? maybe(mValue(v)) : none(); std::string i = num(k);
  switch (sym_pick("which", 0, 8)) { case 0: if (k >= 0 && k < 3) { if (set) e.a[k] = v; CHECK(val<int>(r.process("o.a.@elem." + i, a)) == e.a[k], "element"); } else CHECK(bad(r, "o.a.@elem." + i, a), "out of range"); break; case 1: if (k >= 0 && k < 2) { if (set) e.p[k].y = v; CHECK(val<int>(r.process("o.p.@elem." + i + ".y", a)) == e.p[k].y, "member of an element"); } else CHECK(bad(r, "o.p.@elem." + i + ".y", a), "out of range"); break; case 2: if (k >= 0 && k < 2) { if (set) e.sq[k][1] = v; CHECK(val<int>(r.process("o.sq.@elem." + i + ".@elem.1", a)) == e.sq[k][1], "element of a row"); } else CHECK(bad(r, "o.sq.@elem." + i + ".@elem.1", a) && bad(r, "o.sq.@elem.1.@elem." + i, a), "out of range"); break; case 3: CHECK(val<unsigned>(r.process("o.a.@size", none())) == 3 && val<unsigned>(r.process("o.p.@size", none())) == 2 && val<unsigned>(r.process("o.sq.@size", none())) == 2, "size"); break;
    case 4: { unsigned m = unsigned(k + 1); std::vector<int> w; for (unsigned q = 0; q < m; q++) { w.push_back(small("w")); if (q < 3) e.a[q] = w[q]; } r.process("o.a", args({ints(w)})); break; } case 5: CHECK(val<std::vector<int>>(r.process("o.a", none())) == (std::vector<int>{1, 2, 3}), "read"); break; case 6: { mArray rows; rows.push_back(ints({v, 1})); rows.push_back(ints({2, v})); r.process("o.sq", args({mValue(rows)})); e.sq[0][0] = v; e.sq[0][1] = 1; e.sq[1][0] = 2; e.sq[1][1] = v; break; } case 7: if (k >= 0 && k < 2) { r.process("o.sq.@elem." + i, args({ints({v, 9})})); e.sq[k][0] = v; e.sq[k][1] = 9; } break; case 8: CHECK(bad(r, "o.a.@insert", maybe(mValue(v))) && bad(r, "o.a.@erase", maybe(mValue(0))), "of fixed size"); break; }
  for (int q = 0; q < 3; q++) CHECK(o.a[q] == e.a[q], "numbers"); for (int q = 0; q < 2; q++) CHECK(o.p[q].x == e.p[q].x && o.p[q].y == e.p[q].y && o.sq[q][0] == e.sq[q][0] && o.sq[q][1] == e.sq[q][1] && o.s[q] == e.s[q], "others"); CHECK(o.before == 11 && o.after == 12, "other members"); }
ENTRY(rows) { Arrays o; RESTProcess_t r; RESTProcess(r, "o", o); std::vector<std::vector<int>> w{{1, 2}, {3, 4}}; CHECK(val<std::vector<std::vector<int>>>(r.process("o.sq", none())) == w, "read"); unsigned k = sym_pick("k", 0, 1); RPPtr p = r.process("o.sq.@elem." + num(k), none()); CHECK(val<std::vector<int>>(p) == w[k] && p->size() == 2, "a row"); int v = small("v"); json_pack_t ix, jv; static_cast<mValue&>(ix) = mValue(1); static_cast<mValue&>(jv) = mValue(v); CHECK(val<int>(p->setElem(ix, jv)) == v && o.sq[k][1] == v && val<int>(p->getElem(ix)) == v, "element of a row"); RPPtr q = r.process("o.sq", none()); CHECK(q->size() == 2 && q->isObject(), "handle"); CHECK(val<std::vector<int>>(q->getElem(ix)).size() == 2, "row by handle"); CHECK(val<std::string>(r.process("o.sq.@type", none())).find("MultiArray") != std::string::npos, "type"); CHECK(val<std::string>(r.process("o.s.@elem.1", maybe(mValue("new")))) == "new" && o.s[1] == "new" && o.s[0].empty(), "strings"); }
ENTRY(oblong) { //@@ known=rest-array-order
  Oblong o; RESTProcess_t r; RESTProcess(r, "o", o); CHECK((val<std::vector<std::vector<int>>>(r.process("o.aa", none())) == std::vector<std::vector<int>>{{1, 2, 3}, {4, 5, 6}}), "rows of an array that is not square"); }
