// C22: what json_pack writes json_unpack reads back
//@ std: c++98
//@ cd: pack json_pack typeName
//@ gen: vxsd.h -> vxsd.cd : -typeName -nodef -onbase -respect_private -i $SRC pack unpack json_pack json_unpack
//@ bounds: all values of members of every basic type, strings of up to 2 characters, containers of up to 2 elements, nested to depth 3, arrays of up to 5 dimensions, every subset of missing members (of up to 4), every kind of JSON value in place of the one expected
//@ assume: json5_parser, which is not part of this tree, is replaced by the stand-in in harness/json5
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "json_pack_base.h"
#include "vxsd.h"
#include "vxsd.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vs; using inner::In; using inner::TT; using json5_parser::mValue; using json5_parser::mObject; using json5_parser::mArray;
template <class T> static bool same(T& x, T& y) { pack_t p, q; pack(p, "", x); pack(q, "", y); return p.size() == q.size() && memcmp(p.data(), q.data(), p.size()) == 0; }
// into a new object and a used one, directly and by way of text, by itself and under a name
template <class T> static void trip(T& x, const T& used, bool text) { unsigned k = sym_pick("how", 0, text ? 3 : 2); T was(x); T y = k == 1 ? used : T(); if (k == 3) { std::string s = json(x); json(y, s); } else { json_pack_t j; json_pack(j, k == 2 ? ".n" : "", x); json_unpack(j, k == 2 ? ".n" : "", y); } CHECK(same(x, y), "reads back equal"); CHECK(same(x, was), "what is written is not changed"); json_pack_t j, l; j << x; l << y; CHECK(static_cast<mValue&>(j) == static_cast<mValue&>(l), "and is written the same"); }
static std::string keys(const mValue& v) { std::string r; const mObject& o = v.get_obj(); for (mObject::const_iterator i = o.begin(); i != o.end(); ++i) { if (!r.empty()) r += ' '; r += i->first; } return r; }
template <class T> static std::string written(T& x) { json_pack_t j; j << x; return write(j); }
static unsigned long live() { { Ptrs p, y; p.mark = 1; p.after.x = 2; p.after.e = inner::v; p.q.reset(new In(p.after)); json(y, json(p)); json_pack_t().type(); } return sym_live(); }   // once whatever is built on first use has been
static inner::E en() { unsigned k = sym_pick("e", 0, 2); return k == 0 ? inner::u : k == 1 ? inner::v : inner::w; }
static std::string str(const char* n) { std::string s(sym_pick("len", 0, 2), ' '); for (size_t i = 0; i < s.size(); i++) s[i] = sym<char>(n); return s; }
static std::string word(unsigned n) { return std::string(n, 'w'); }
static In in() { In i; i.x = sym<int>("x"); i.e = en(); return i; }
static In in0() { In i; i.x = -7; i.e = inner::w; return i; }
static Basic filled() { Basic b = Basic(); b.b = true; b.c = 'q'; b.sc = -3; b.uc = 200; b.s = -5; b.us = 6; b.i = 7; b.u = 8; b.l = -9; b.ul = 10; b.ll = 11; b.ull = 12; b.f = 1.5; b.d = -2.5; b.t = "old"; b.e = inner::w; return b; }
// symbols written by others may have white space around them
ENTRY(enum_text) { Basic b = Basic(), y = b; b.e = en(); json_pack_t j; j << b; static const char* sp[] = {"", " ", "\n", " \t "}; std::string l = sp[sym_pick("before", 0, 3)], t = sp[sym_pick("after", 0, 3)]; mValue& m = static_cast<mValue&>(j).get_obj()["e"]; m = mValue(l + m.get_str() + t); j >> y; CHECK(y.e == b.e, "symbol with white space around it"); }
ENTRY(basic) { Basic b = Basic(); b.b = sym<bool>("b"); b.c = sym<char>("c"); b.sc = sym<signed char>("sc"); b.uc = sym<unsigned char>("uc"); b.s = sym<short>("s"); b.us = sym<unsigned short>("us"); b.i = sym<int>("i"); b.u = sym<unsigned>("u"); b.l = sym<long>("l"); b.ul = sym<unsigned long>("ul"); b.ll = sym<long long>("ll"); b.ull = sym<unsigned long long>("ull"); b.e = en(); b.t = "ab"; trip(b, filled(), false); json_pack_t j; j << b; CHECK(keys(j) == "b c d e f i l ll s sc t u uc ul ull us", "an entry for each member"); mObject& o = j.get_obj(); CHECK(o["b"].get_bool() == b.b && o["c"].get_str() == std::string(1, b.c) && o["i"].get_int() == b.i && o["u"].get_uint64() == b.u && o["l"].get_int64() == b.l && o["ul"].get_uint64() == b.ul && o["ll"].get_int64() == b.ll && o["ull"].get_uint64() == b.ull && o["s"].get_int() == b.s && o["us"].get_int() == b.us && o["t"].get_str() == "ab" && o["e"].get_str() == (b.e == inner::u ? "u" : b.e == inner::v ? "v" : "w"), "with its value"); }
ENTRY(floats) { Basic b = filled(), c = filled(); float f = sym<float>("f"); double d = sym<double>("d"); sym_assume(d == d && f == f); b.f = f; b.d = d; json_pack_t j; j << b; j >> c; CHECK(c.f == f && c.d == d, "reads back equal"); CHECK(j.get_obj()["d"].get_real() == d && j.get_obj()["f"].get_real() == f, "with its value"); unsigned k = sym_pick("k", 0, 2); j.get_obj()["d"] = k == 0 ? mValue() : mValue(7); j.get_obj()["f"] = k == 1 ? mValue() : mValue(7); j >> c; CHECK(k == 0 ? c.d != c.d : c.d == 7, "null is NaN, whole numbers are numbers"); CHECK(k == 1 ? c.f != c.f : c.f == 7, "null is NaN, whole numbers are numbers"); }
ENTRY(texts) { Basic b = filled(); unsigned k = sym_pick("k", 0, 3); b.i = k == 0 ? sym<short>("i") : -2147483647 - 1; b.ul = k == 1 ? sym<unsigned short>("ul") : ~0UL; b.ll = k == 2 ? sym<short>("ll") : 1LL << 63; if (k == 3) b.t = str("t"); Basic c = Basic(); std::string s = json(b); json(c, s); CHECK(same(b, c), "reads back equal"); } //@@ fix:k=0..3
ENTRY(arrays) { Arrays a = Arrays(), u = Arrays(); for (int i = 0; i < 3; i++) a.a[i] = sym<int>("a"); for (int i = 0; i < 6; i++) (&a.m[0][0])[i] = sym<short>("m"); for (int i = 0; i < 2; i++) { a.ai[i].x = sym<int>("x"); a.ai[i].e = i ? inner::v : en(); a.ae[i] = i ? en() : inner::u; a.as[i] = word(i + 1); a.ac[i] = sym<char>("ac"); u.av[i].resize(3, 8); u.as[i] = "old"; } for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) a.av[1].push_back(sym<int>("v")); a.ab[0][0] = sym<bool>("b"); a.at[0].a = 4; for (int i = 0; i < 4; i++) { (&a.a3[0][0][0])[i] = sym<int>("a3"); (&a.a4[0][0][0][0])[i] = sym<short>("a4"); (&a.a5[0][0][0][0][0])[i] = i & 1 ? inner::v : inner::w; } a.mark = 42; trip(a, u, false); json_pack_t j; j << a; mObject& o = j.get_obj(); const mArray& m = o["m"].get_array(); CHECK(m.size() == 2 && m[0].get_array().size() == 3 && m[1].get_array().size() == 3, "nested arrays"); for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) CHECK(m[i].get_array()[k].get_int() == a.m[i][k], "in their order"); const mArray& q = o["a3"].get_array(); CHECK(q.size() == 1 && q[0].get_array().size() == 2 && q[0].get_array()[1].get_array().size() == 2 && q[0].get_array()[1].get_array()[0].get_int() == a.a3[0][1][0], "rank 3"); }
ENTRY(inheritance) { switch (sym_pick("k", 0, 2)) {
  case 0: { Derived d = Derived(), u = Derived(); d.b = sym<int>("b"); d.own = sym<int>("own"); d.in = in(); d.last = sym<int>("last"); u.b = 3; u.in = in0(); trip(d, u, false); json_pack_t j; j << d; CHECK(keys(j) == "base___vs__Base in last own" && j.get_obj()["base___vs__Base"].get_obj()["b"].get_int() == d.b, "bases under their name"); break; }
  case 1: { Derived2 d = Derived2(), u = Derived2(); d.in = in(); d.n = sym<short>("n"); u.vd.resize(3); u.in = in0(); d.vd.resize(sym_pick("len", 0, 2)); for (size_t i = 0; i < d.vd.size(); i++) { d.vd[i].own = sym<int>("o"); d.vd[i].in = in0(); } trip(d, u, false); break; }
  case 2: { Multi d = Multi(), u = Multi(); d.b = sym<int>("b"); d.own = sym<int>("own"); d.in = in(); d.b3 = sym<bool>("b3"); u.b3 = true; u.in = in0(); trip(d, u, false); break; } } }
ENTRY(sequences) { Seqs q, u; u.v.resize(3, 1); u.vs.resize(1, "old"); u.vi.resize(1, in0()); u.vv.resize(3, std::vector<int>(2)); u.st.insert(inner::w); u.vb.resize(3, true); u.va.resize(1); u.dd.resize(1); u.vm.resize(1); unsigned k = sym_pick("k", 0, 8), n = sym_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) switch (k) { case 0: q.v.push_back(sym<int>("v")); break; case 1: q.vs.push_back(word(sym_pick("len", 0, 2))); break; case 2: q.vi.push_back(in()); break; case 3: q.vv.push_back(std::vector<int>(sym_pick("m", 0, 2), sym<int>("v"))); break; case 4: q.st.insert(en()); break; case 5: q.vb.push_back(sym<bool>("b")); break; case 6: { Arrays a = Arrays(); a.ai[0] = a.ai[1] = in0(); a.a[2] = sym<int>("a"); q.va.push_back(a); break; } case 7: q.dd.push_back(std::deque<In>(sym_pick("m", 0, 2), in0())); break; case 8: { Multi m = Multi(); m.in = in0(); m.b3 = sym<bool>("b"); q.vm.push_back(m); break; } } trip(q, u, false); }
ENTRY(maps) { Maps m, u; m.p.first = sym<bool>("b"); m.p.second = in(); u.p.second = in0(); u.m[3] = 4; u.mi["k"] = in0(); u.me[inner::v]; u.vp.resize(2); u.mm[0][0] = inner::v; u.ma[1][7] = true;
  unsigned k = sym_pick("k", 0, 5), n = sym_pick("n", 0, 2); for (unsigned i = 0; i < n; i++) switch (k) { case 0: m.m[sym<int>("key")] = sym<int>("v"); break; case 1: m.mi[word(i)] = in0(); break; case 2: m.me[i ? inner::v : inner::u] = std::vector<In>(i, in0()); break; case 3: m.vp.push_back(std::make_pair(word(i), sym<bool>("b"))); break; case 4: m.mm[i][sym<int>("key")] = en(); break; case 5: m.ma[i][sym<int>("key")] = sym<bool>("b"); break; } trip(m, u, false); }
ENTRY(odd) { Odd o, w; o.ex = 3; o.n[0].q = sym<int>("q"); o.n[1].q = 4; o.p.open = sym<unsigned char>("open"); w.ex = 5; json_pack_t j; j << o; j >> w; CHECK(w.n[0].q == o.n[0].q && w.n[1].q == 4 && w.p.open == o.p.open && w.mark == 4 && w.ex == 5 && w.ci == 3, "reads back equal"); CHECK(keys(j) == "ci mark n p", "an entry for each member"); }
ENTRY(nesting) { Deep d = Deep(), u = Deep(); d.in.in = in0(); d.in.ie = sym<bool>("ie") ? Deep::Inner::q : Deep::Inner::p; d.tn.t = in0(); d.tn.v.resize(sym_pick("n", 0, 2), in0()); d.te.t = inner::v; d.te.v.push_back(inner::u); d.ts.v.push_back("a"); d.ts.t = word(sym_pick("len", 0, 2)); d.tt.v.resize(1); d.tt.v[0].a = sym<signed char>("tt"); d.vt.resize(1); d.vt[0].a = sym<signed char>("vt"); d.mark = 7; u.tn.v.resize(3, in0()); u.te.v.resize(3); u.vt.resize(3); trip(d, u, true); }
ENTRY(recursive) { Rec r, u; r.a = sym<int>("a"); u.a = 5; u.kids.resize(3, Rec()); for (int i = 0; i < 3; i++) u.kids[i].a = i; r.kids.resize(sym_pick("n", 0, 2)); for (size_t i = 0; i < r.kids.size(); i++) { r.kids[i].a = sym<int>("ka"); r.kids[i].kids.resize(i); if (i) r.kids[i].kids[0].a = 4; } if (sym<bool>("named")) r.named[sym<int>("key")].a = 6; trip(r, u, false); }
ENTRY(pointers) { unsigned long before = live(); { Ptrs p, y; p.mark = 1; p.after = in0(); y.mark = 0; y.after.x = 0; y.after.e = inner::u; if (sym<bool>("p")) p.p.reset(new In(in())); if (sym<bool>("q")) p.q.reset(new In(in0())); if (sym<bool>("n")) p.n.reset(new int(sym<int>("v"))); if (sym<bool>("old")) { y.p.reset(new In(in0())); y.q.reset(new In(in0())); y.n.reset(new int(77)); } shared_ptr<In> keep = y.p; bool text = sym<bool>("text"); if (text) { if (p.p) p.p->x = 12; if (p.n) *p.n = -3; json(y, json(p)); } else { json_pack_t j; j << p; j >> y; } CHECK(!p.p == !y.p && !p.q == !y.q && !p.n == !y.n, "null stays null, others do not"); if (p.p) CHECK(y.p->x == p.p->x && y.p->e == p.p->e && y.p != p.p && y.p != keep, "a new equal object"); if (p.q) CHECK(y.q->x == -7, "object"); if (p.n) CHECK(*y.n == *p.n, "number"); CHECK(y.mark == 1 && y.after.x == -7 && y.after.e == inner::w, "other members"); if (keep) CHECK(keep->x == -7, "other holders keep the old one"); } CHECK(sym_live() == before, "nothing leaks"); }
ENTRY(root_pointers) { shared_ptr<In> p, y; if (sym<bool>("has")) p.reset(new In(in())); if (sym<bool>("old")) y.reset(new In(in0())); json_pack_t j; j << p; j >> y; CHECK(!p == !y, "null stays null, others do not"); if (p) CHECK(y->x == p->x && y->e == p->e && y != p, "a new equal object"); }
// members that are missing, and entries that are not expected
ENTRY(missing) { Derived2 d = Derived2(), y = Derived2(); d.b = sym<int>("b"); d.own = sym<int>("own"); d.in = in(); d.last = 3; d.n = sym<short>("n"); d.vd.resize(1); d.vd[0].in = in0(); y.b = 21; y.own = 22; y.in.x = 23; y.in.e = inner::v; y.last = 24; y.n = 25; y.vd.resize(2); y.vd[0].own = y.vd[1].own = 26; json_pack_t j; j << d; mObject& o = j.get_obj(); mObject& b = o["base___vs__Derived"].get_obj(); unsigned k = sym_pick("k", 0, 7); bool strict = sym<bool>("strict"), extra = sym<bool>("extra"), ok = true; switch (k) { case 0: b["base___vs__Base"].get_obj().erase("b"); break; case 1: b.erase("own"); break; case 2: b["in"].get_obj().erase("x"); break; case 3: b["in"].get_obj().erase("e"); break; case 4: b.erase("in"); break; case 5: o.erase("n"); break; case 6: o.erase("vd"); break; case 7: break; } if (extra) { o["extra"] = mArray(2); if (k != 4) b["in"].get_obj()["y"] = mValue(3); } j.throw_on_error = strict; try { j >> y; } catch (const json_pack_error&) { ok = false; } CHECK(ok == (!strict || k == 7), "reported exactly if asked for"); if (ok) { CHECK(y.b == (k == 0 ? 21 : d.b) && y.own == (k == 1 ? 22 : d.own) && y.in.x == (k == 2 || k == 4 ? 23 : d.in.x) && y.in.e == (k == 3 || k == 4 ? inner::v : d.in.e) && y.last == 3 && y.n == (k == 5 ? 25 : d.n), "what is missing stays as it was, the others are read"); CHECK(k == 6 ? y.vd.size() == 2 && y.vd[1].own == 26 : y.vd.size() == 1 && y.vd[0].own == 0, "containers likewise"); } }
static mValue any(int depth) { switch (sym_pick("any", 0, depth ? 8 : 5)) { case 0: return mValue(); case 1: return mValue(sym<bool>("vb")); case 2: return mValue(boost::int64_t(sym<long>("vi"))); case 3: return mValue(boost::uint64_t(sym<unsigned long>("vu"))); case 4: return mValue(word(sym_pick("vs", 0, 1))); case 5: return mValue(1.5); case 6: { mArray a; for (unsigned i = 0, n = sym_pick("va", 0, 2); i < n; i++) a.push_back(any(depth - 1)); return mValue(a); } case 7: { mObject o; o["x"] = any(depth - 1); return mValue(o); } default: { mObject o; o["first"] = any(depth - 1); o["e"] = mValue("v"); return mValue(o); } } }
template <class T> static void bad(const T& x, const char* name) { T y = x; json_pack_t j; j << x; if (name) { CHECK(j.get_obj().count(name) == 1, "named"); j.get_obj()[name] = any(1); } else j = json_pack_t(any(1)); j.throw_on_error = sym<bool>("strict"); try { j >> y; } catch (const std::exception&) {} pack_t p; pack(p, "", y); CHECK(p.size() > 0, "still an object"); }
ENTRY(hostile) { unsigned long before = live(); { switch (sym_pick("what", 0, 13)) { case 0: { Basic b = filled(); static const char* n[] = {"b", "c", "uc", "us", "u", "ull", "f", "d", "t", "e"}; bad(b, n[sym_pick("m", 0, 9)]); break; } case 1: { Arrays a = Arrays(); a.ai[0] = a.ai[1] = in0(); a.ae[0] = a.ae[1] = inner::v; static const char* n[] = {"a", "m", "ai", "ae", "as", "av", "a4"}; bad(a, n[sym_pick("m", 0, 6)]); break; } case 2: { Seqs q; q.v.resize(1); static const char* n[] = {"v", "vs", "vi", "vv", "st", "vb", "va", "dd", "vm"}; bad(q, n[sym_pick("m", 0, 8)]); break; } case 3: { Maps m; m.p.second = in0(); static const char* n[] = {"m", "mi", "me", "p", "vp", "mm", "ma"}; bad(m, n[sym_pick("m", 0, 6)]); break; } case 4: { Derived d = Derived(); bad(d, "in"); break; } case 5: { Derived d = Derived(); bad(d, "base___vs__Base"); break; } case 6: { Ptrs p; p.mark = 1; p.after = in0(); static const char* n[] = {"p", "n"}; bad(p, n[sym_pick("m", 0, 1)]); break; } case 7: { Derived2 d = Derived2(); d.in = in0(); bad(d, 0); break; } case 8: { std::vector<int> v(1); bad(v, 0); break; } case 9: { std::map<int, In> v; bad(v, 0); break; } case 10: { int v = 0; bad(v, 0); break; } case 11: { Rec r; r.a = 1; bad(r, "kids"); break; } case 12: { shared_ptr<In> p(new In(in0())); bad(p, 0); break; } case 13: { std::string s; bad(s, 0); break; } } } CHECK(sym_live() == before, "nothing leaks"); } //@@ fix:what=0..13
// members named by a path
ENTRY(paths) { Derived d = Derived(), y = Derived(); d.in = in0(); json_pack_t j; j << d; int v = sym<int>("v"); unsigned k = sym_pick("k", 0, 3); const char* n[] = {".in.x", "in.x", ".own", ".base___vs__Base.b"}; json_pack(j, n[k], v); j >> y; CHECK(y.in.x == (k < 2 ? v : -7) && y.own == (k == 2 ? v : 0) && y.b == (k == 3 ? v : 0) && y.in.e == inner::w, "the member named, and no other"); int w = 5; json_unpack(j, n[k], w); CHECK(w == v, "is read by its path"); json_unpack(j, ".in.none", w); CHECK(w == v, "one that is not there is not"); bool thrown = false; j.throw_on_error = true; try { json_unpack(j, ".none.x", w); } catch (json_pack_error&) { thrown = true; } CHECK(thrown, "or reported"); }
// errors are reported from wherever they are
ENTRY(missing_within) { unsigned k = sym_pick("k", 0, 5); bool strict = sym<bool>("strict"), drop = sym<bool>("drop"), ok = true; json_pack_t j; j.throw_on_error = strict; int before = 31, after = -1; In i = in0();
  try { switch (k) { case 0: { std::vector<In> v(2, i), w(2, i); w[1].x = before; j = json_pack_t(v); j.throw_on_error = strict; if (drop) j.get_array()[1].get_obj().erase("x"); j >> w; after = w[1].x; break; }
    case 1: { std::map<int, In> v, w; v[2] = i; j = json_pack_t(v); j.throw_on_error = strict; if (drop) j.get_array()[0].get_obj()["second"].get_obj().erase("e"); j >> w; after = drop ? before : w[2].x; break; }
    case 2: { Arrays v = Arrays(), w = Arrays(); v.ai[0] = v.ai[1] = w.ai[0] = w.ai[1] = i; w.ai[1].x = before; j << v; j.throw_on_error = strict; if (drop) j.get_obj()["ai"].get_array()[1].get_obj().erase("x"); j >> w; after = w.ai[1].x; break; }
    case 3: { Maps v, w; v.p.first = true; v.p.second = i; w.p = v.p; w.p.second.x = before; j << v; j.throw_on_error = strict; if (drop) j.get_obj()["p"].get_obj()["second"].get_obj().erase("x"); j >> w; after = w.p.second.x; break; }
    case 4: { Arrays v = Arrays(), w = Arrays(); v.a[2] = -7; w.a[2] = before; j << v; j.throw_on_error = false; strict = false; if (drop) j.get_obj()["a"].get_array().pop_back(); j >> w; after = w.a[2]; break; }
    case 5: { Arrays v = Arrays(), w = Arrays(); v.m[1][2] = -7; w.m[1][2] = before; j << v; j.throw_on_error = strict; if (drop) j.get_obj()["m"].get_array()[1] = mValue(3); j >> w; after = w.m[1][2]; break; } } } catch (const json_pack_error&) { ok = false; }
  CHECK(ok == !(strict && drop), "reported exactly if asked for"); if (ok) CHECK(after == (drop ? before : -7), "what is missing stays as it was"); }
// how errors are handled is up to the caller, whatever is written
ENTRY(strictness) { json_pack_t j; bool a = j.throw_on_error = sym<bool>("e"), b = j.throw_on_not_found = sym<bool>("f"); int v = sym<int>("v"); switch (sym_pick("k", 0, 7)) { case 0: j << v; break; case 1: j << std::string("s"); break; case 2: j << in0(); break; case 3: j << std::vector<int>(2, v); break; case 4: j << std::map<int, int>(); break; case 5: json_pack(j, ".m", v); break; case 6: { Arrays x = Arrays(); x.ae[0] = x.ae[1] = inner::u; x.ai[0].e = x.ai[1].e = inner::v; j << x; break; } case 7: { Ptrs p; p.mark = 1; p.after = in0(); j << p; break; } } CHECK(j.throw_on_error == a && j.throw_on_not_found == b, "still handled as asked"); bool ok = true; try { json_pack(j, ".none.x", v); } catch (const json_pack_error&) { ok = false; } CHECK(ok == !(b || (a && false)), "reported if asked for"); }
