// C05: values written to a BinStream read back equal, in any mix and order
//@ std: c++98
//@ cd: pack
//@ bounds: all values of each type; containers of up to 2 (quick) / 4 elements; sequences of up to 3 / 4 mixed operations
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include <list>
#include <deque>
#include <set>
#include <map>
using namespace classdesc;
enum { NC = TIER ? 4 : 2, NOP = TIER ? 4 : 3 };
struct Pod { int a; double d; short s[3]; char c; };
template <class T> void scalar() { T x = sym<T>("v"), y = 0; pack_t b; BinStream bs(b); bs << x; CHECK(b.size() == sizeof(T), "a POD takes its size"); bs >> y; CHECK(!memcmp(&x, &y, sizeof x), "scalar round trip"); CHECK(b.pos() == b.size(), "exact consumption"); bool t = false; try { bs >> y; } catch (std::exception&) { t = true; } CHECK(t && !memcmp(&x, &y, sizeof x), "reads past the end are refused and change nothing"); }
ENTRY(scalars) { scalar<bool>(); scalar<char>(); scalar<unsigned char>(); scalar<short>(); scalar<unsigned short>(); scalar<int>(); scalar<unsigned>(); scalar<long>(); scalar<unsigned long>(); scalar<long long>(); scalar<wchar_t>(); }
ENTRY(floats) { unsigned long u = sym<unsigned long>("d"), v; double d, e = 0; memcpy(&d, &u, 8); pack_t b; BinStream bs(b); bs << d >> e; memcpy(&v, &e, 8); CHECK(u == v, "double bits"); }
ENTRY(pods) { Pod p, q; memset(&p, 0, sizeof p); memset(&q, 1, sizeof q); p.a = sym<int>("a"); p.s[0] = sym<short>("s0"); p.s[2] = sym<short>("s2"); p.c = sym<char>("c"); pack_t b; BinStream bs(b); bs << p >> q; CHECK(!memcmp(&p, &q, sizeof p), "struct"); int a[3], c[3] = {0, 0, 0}; for (int i = 0; i < 3; i++) a[i] = sym<int>("e"); bs << a >> c; CHECK(!memcmp(a, c, sizeof a), "array"); CHECK(b.pos() == b.size(), "exact consumption"); }
template <class T> struct Mk { static T one() { return sym<T>("e"); } };
template <> struct Mk<Pod> { static Pod one() { Pod p; memset(&p, 0, sizeof p); p.a = sym<int>("a"); p.c = sym<char>("c"); return p; } };
static bool operator==(const Pod& x, const Pod& y) { return !memcmp(&x, &y, sizeof x); }
template <class C> void seq() { typedef typename C::value_type E; unsigned n = sym_pick("n", 0, NC); C x, y; for (unsigned i = 0; i < n; i++) x.push_back(Mk<E>::one()); if (sym<bool>("dirty")) { y.push_back(E()); y.push_back(E()); } pack_t b; BinStream bs(b); int mark = sym<int>("mark"), m2 = 0; bs << x << mark; CHECK(b.size() == 8 + n * sizeof(E) + 4, "containers take a length and their elements"); bs >> y >> m2; CHECK(x == y, "sequence replaced by what was written"); CHECK(m2 == mark && b.pos() == b.size(), "what follows is intact"); }
ENTRY(vecs) { seq<std::vector<int> >(); seq<std::vector<Pod> >(); }
ENTRY(lists) { seq<std::list<int> >(); seq<std::list<Pod> >(); }
ENTRY(deques) { seq<std::deque<short> >(); }
ENTRY(nested) { unsigned n = sym_pick("n", 0, 2); typedef std::list<std::vector<short> > L; L x, y; for (unsigned i = 0; i < n; i++) { unsigned m = sym_pick("m", 0, 2); x.push_back(std::vector<short>(m, sym<short>("e"))); } pack_t b; BinStream bs(b); bs << x >> y; CHECK(x == y && b.pos() == b.size(), "list of vectors"); }
ENTRY(assoc) { std::set<int> s, s2; unsigned n = sym_pick("n", 0, NC); for (unsigned i = 0; i < n; i++) s.insert(sym<int>("k")); s2.insert(3); std::multiset<char> ms, ms2; for (unsigned i = 0; i < n; i++) ms.insert(sym<char>("c")); pack_t b; BinStream bs(b); bs << s << ms >> s2 >> ms2; CHECK(s == s2, "set"); CHECK(ms == ms2, "multiset"); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(maps) { std::map<int, int> s, s2; unsigned n = sym_pick("n", 0, NC); for (unsigned i = 0; i < n; i++) s[sym<int>("k")] = sym<int>("v"); s2[3] = 4; pack_t b; BinStream bs(b); bs << s >> s2; CHECK(s == s2, "map"); CHECK(b.pos() == b.size(), "exact consumption"); }
ENTRY(mixed) { // any order of writes, then the same order of reads, interleaved with the buffer's own operators
  pack_t b; BinStream bs(b); unsigned op[NOP]; int iv[NOP]; std::vector<short> vv[NOP]; std::list<char> lv[NOP]; unsigned ahead = 0;
  for (unsigned i = 0; i < NOP; i++) { op[i] = sym_pick("op", 0, 4); iv[i] = sym<int>("v"); switch (op[i]) { case 0: bs << iv[i]; break; case 1: bs << (char)iv[i]; break; case 2: vv[i].assign(i, (short)iv[i]); bs << vv[i]; break; case 3: lv[i].assign(2, (char)iv[i]); bs << lv[i]; break; default: b << iv[i]; } 
    if (sym<bool>("readnow")) for (; ahead <= i; ahead++) { int y = 0; char c = 0; std::vector<short> v; std::list<char> l; switch (op[ahead]) { case 0: bs >> y; CHECK(y == iv[ahead], "int"); break; case 1: bs >> c; CHECK(c == (char)iv[ahead], "char"); break; case 2: bs >> v; CHECK(v == vv[ahead], "vector"); break; case 3: bs >> l; CHECK(l == lv[ahead], "list"); break; default: b >> y; CHECK(y == iv[ahead], "buffer's own operator"); } } }
  if (ahead == NOP) { CHECK(b.pos() == b.size(), "exact consumption"); sym_reach("all"); } sym_expect("all"); }
ENTRY(owned) { BinStreamT<pack_t> bs; std::vector<int> x(sym_pick("n", 0, NC)), y; for (unsigned i = 0; i < x.size(); i++) x[i] = sym<int>("e"); char c = sym<char>("c"), d = 0; bs << c << x; bs >> d >> y; CHECK(c == d && x == y, "a stream that owns its buffer"); CHECK(bs.thePack.pos() == bs.thePack.size(), "exact consumption"); BinStreamT<pack_t> sized((size_t)0); sized << c; CHECK(sized.thePack.size() == 1, "constructor arguments reach the buffer"); }
