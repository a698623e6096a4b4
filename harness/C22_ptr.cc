// C22: pointers, plain and polymorphic, through JSON
//@ std: c++11
//@ cd: pack json_pack typeName
//@ gen: vjptr.h -> vjptr.cd : -typeName -nodef -onbase -respect_private -i $SRC json_pack json_unpack
//@ bounds: null and set pointers to objects, numbers and polymorphic objects, of either type, in new and used objects, by themselves, as members and in containers of up to 2 elements
#include "sym.h"
#include "json_pack_base.h"
#include "vjptr.h"
namespace vq { shape* shape::create(int t) { switch (t) { case 1: return new circle; case 7: return new square; default: throw std::runtime_error("unknown type"); } } }
#include "vjptr.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vq;
typedef shared_ptr<shape> SP;
static SP poly(unsigned k, const char* n) { if (k == 1) { circle* c = new circle; c->r = sym<int>(n); return SP(c); } if (k == 2) { square* s = new square; s->r = sym<int>(n); s->name = "sq"; return SP(s); } return SP(); }
static bool same(const SP& a, const SP& b) { if (!a || !b) return !a && !b; if (a == b || a->type() != b->type()) return false; if (a->type() == 1) return dynamic_cast<circle*>(b.get()) && dynamic_cast<circle&>(*a).r == dynamic_cast<circle&>(*b).r; return dynamic_cast<square*>(b.get()) && dynamic_cast<square&>(*a).r == dynamic_cast<square&>(*b).r && dynamic_cast<square&>(*a).name == dynamic_cast<square&>(*b).name; }
static unsigned long live() { { Holder h, k; h.q = poly(0, ""); h.p.reset(new Plain); h.p->v = 0; json(k, json(h)); square s; h.q.reset(new square(s)); json_pack_t j; j << h; j >> k; j.type(); } return sym_live(); }
ENTRY(root) { unsigned long n = live(); { SP a = poly(sym_pick("k", 0, 2), "r"), b = poly(sym_pick("o", 0, 2), "old"), keep = b; json_pack_t j; j << a; j >> b; CHECK(same(a, b), "an equal object of the same type"); CHECK(!keep || keep != b, "a new one"); if (a) CHECK(j.get_obj()["type"].get_int() == a->type() && j.get_obj().count("r") + j.get_obj().count("base___vq__circle_b") + j.get_obj().count("base___vq__square_b") >= 1, "with its type"); } CHECK(sym_live() == n, "nothing leaks"); }
ENTRY(members) { unsigned long n = live(); { Holder a, b; a.before = 3; a.after = 4; if (sym<bool>("p")) { a.p.reset(new Plain); a.p->v = sym<int>("v"); a.p->s = "txt"; } if (sym<bool>("i")) a.i.reset(new int(sym<int>("iv"))); a.q = poly(sym_pick("k", 0, 2), "r"); if (sym<bool>("used")) { b.p.reset(new Plain); b.p->v = 9; b.i.reset(new int(8)); b.q = poly(2, "old"); } json_pack_t j; j << a; j >> b; json5_parser::mObject& o = j.get_obj(); CHECK(o.size() == 5 && o.count("p") && o.count("i") && o.count("q") && o["p"].is_null() == !a.p && o["i"].is_null() == !a.i && o["q"].is_null() == !a.q, "an entry for each pointer, null for null pointers"); CHECK(same(a.q, b.q), "an equal object of the same type"); CHECK(!a.p == !b.p && !a.i == !b.i, "null stays null, others do not"); CHECK((!a.p || (b.p->v == a.p->v && b.p->s == "txt" && a.p != b.p)) && (!a.i || *a.i == *b.i), "equal targets"); CHECK(b.before == 3 && b.after == 4, "other members"); } CHECK(sym_live() == n, "nothing leaks"); }
ENTRY(text) { Holder a, b; a.before = 3; a.after = 4; a.q = poly(0, ""); switch (sym_pick("k", 0, 3)) { case 1: { circle* c = new circle; c->r = sym<signed char>("r"); a.q.reset(c); break; } case 2: { square* c = new square; c->r = 5; c->name = "n"; a.q.reset(c); break; } case 3: a.p.reset(new Plain); a.p->v = 4; break; } b.q = poly(2, "old"); json(b, json(a)); CHECK(same(a.q, b.q) && !a.p == !b.p && !b.i && b.before == 3 && b.after == 4, "equal"); }
ENTRY(containers) { Vecs a, b; unsigned n = sym_pick("n", 0, 2); b.q.push_back(poly(1, "old")); b.p.resize(3); b.m[2] = poly(2, "old"); b.b.resize(1); for (unsigned i = 0; i < n; i++) { a.q.push_back(poly(sym_pick("k", 0, 2), "r")); a.p.push_back(shared_ptr<Plain>()); if (sym<bool>("p")) { a.p[i].reset(new Plain); a.p[i]->v = sym<int>("v"); } a.m[i] = poly(i + 1, "m"); a.b.push_back(std::vector<bool>(i + 1, sym<bool>("b"))); } json_pack_t j; j << a; j >> b; CHECK(a.q.size() == b.q.size() && a.p.size() == b.p.size() && a.m.size() == b.m.size() && a.b == b.b, "sizes"); for (unsigned i = 0; i < n; i++) { CHECK(same(a.q[i], b.q[i]) && same(a.m[i], b.m[i]), "equal objects of the same type"); CHECK(!a.p[i] == !b.p[i] && (!a.p[i] || a.p[i]->v == b.p[i]->v), "plain ones"); } }
ENTRY(absent) { unsigned long n = live(); { Holder a, b; a.q = poly(1, "r"); b.q = poly(2, "old"); json_pack_t j; j << a; bool strict = j.throw_on_error = sym<bool>("strict"); switch (sym_pick("k", 0, 4)) { case 0: j.get_obj().erase("q"); break; case 1: j.get_obj()["q"].get_obj().erase("type"); break; case 2: j.get_obj()["q"] = json5_parser::mValue(4); break; case 3: j.get_obj()["q"].get_obj()["type"] = json5_parser::mValue(sym<int>("type")); break; case 4: j.get_obj()["q"].get_obj()["type"] = json5_parser::mValue("x"); break; } try { j >> b; if (b.q) { int t = b.q->type(); CHECK(t == 1 || t == 7, "an object of a known type"); } } catch (const std::exception&) {} (void)strict; } CHECK(sym_live() == n, "nothing leaks"); }
ENTRY(streamed) { Dated a, b; a.a = 3; a.b = 4; a.d.y = sym<short>("y"); a.d.m = sym<char>("m"); sym_assume(a.d.m >= 'a' && a.d.m <= 'z'); unsigned n = sym_pick("n", 0, 2); a.v.resize(n); for (unsigned i = 0; i < n; i++) { a.v[i].y = i * 100 - 7; a.m[i].y = i; a.m[i].m = 'x'; } if (sym<bool>("used")) { b.d.y = 99; b.v.resize(3); b.m[9].y = 8; } json_pack_t j; j << a; CHECK(j.get_obj()["d"].type() == json5_parser::str_type, "written by its streaming operator"); j >> b; CHECK(b.a == 3 && b.b == 4 && b.d.y == a.d.y && b.d.m == a.d.m && b.v.size() == n && b.m.size() == n, "reads back equal"); for (unsigned i = 0; i < n; i++) CHECK(b.v[i].y == a.v[i].y && b.v[i].m == 'a' && b.m[i].y == (int)i && b.m[i].m == 'x', "reads back equal"); j.throw_on_error = sym<bool>("strict"); j.get_obj().erase("d"); Dated c; c.d.y = 55; bool ok = true; try { j >> c; } catch (const json_pack_error&) { ok = false; } CHECK(ok == !j.throw_on_error, "missing ones are reported exactly if asked for"); if (ok) CHECK(c.d.y == 55 && c.b == 4, "and keep their value"); }
ENTRY(types) { using namespace json5_parser; unsigned k = sym_pick("k", 0, 6); mArray a(sym_pick("n", 0, 2), mValue(sym<int>("v"))); mObject o; o["x"] = mValue(1); json_pack_t j = k == 0 ? json_pack_t(o) : k == 1 ? json_pack_t(a) : k == 2 ? json_pack_t("s") : k == 3 ? json_pack_t(sym<bool>("b")) : k == 4 ? json_pack_t(sym<int>("i")) : k == 5 ? json_pack_t(1.5) : json_pack_t(); static const RESTProcessType::Type t[] = {RESTProcessType::object, RESTProcessType::array, RESTProcessType::string, RESTProcessType::boolean, RESTProcessType::int_number, RESTProcessType::float_number, RESTProcessType::null}; CHECK(j.type() == t[k], "the kind of value it is"); CHECK(RESTProcessTypeToJson5ParserType(t[k]) == static_cast<mValue&>(j).type(), "either way"); CHECK(!j.throw_on_error && !j.throw_on_not_found, "not strict unless asked to be"); if (k == 1) CHECK(j.array() == a, "its elements"); j.objectify(); CHECK(j.type() == RESTProcessType::object && j.get_obj().size() == (k == 0 ? 1 : 0), "becomes an object"); int x = sym<int>("x"); json_pack_t l{x, 3, 4}; CHECK(l.array().size() == 3 && l.array()[0].get_int() == x && l.array()[2].get_int() == 4, "lists"); CHECK(!l.throw_on_error && !l.throw_on_not_found, "not strict unless asked to be"); }
