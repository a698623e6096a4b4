// C14: random initialisation sets every member to a valid value, whatever the random source yields
//@ std: c++98
//@ cd: random_init typeName
//@ gen: vrand.h -> vrand.cd : -typeName -nodef -onbase -i $SRC random_init
//@ bounds: every result of std::rand() for scalars, every double in [0,1) for the derived sources; containers of every length it may give (0 to 9); quick: the first three elements drawn symbolically
#include "sym.h"
#include <cstdlib>
#include <cstring>
static int fixedRand = -1;
extern "C" int rand() throw() { if (fixedRand >= 0) return fixedRand; int k = sym<int>("rand"); sym_assume(k >= 0); return k; } // RAND_MAX is the greatest int
#include "random_init_base.h"
#include "classdesc_access.h"
#include "vrand.h"
#include "vrand.cd"
#include "random_init_epilogue.h"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace vr;
// a source with the interval the documentation states
struct Src: public random_init_t { double rand() { double r = sym<double>("r"); sym_assume(r >= 0 && r < 1); return r; } };
// a source of k/8, split by value
struct Eighths: public random_init_t { double rand() { return sym_pick("k", 0, 7) / 8.0; } };
struct Most: public random_init_t { double v; double rand() { return v; } };
namespace classdesc { template <> void random_init_normalise(Norm& n) { n.y = n.x ^ 1; } }
ENTRY(unit_interval) { random_init_t r; double x = r.rand(); CHECK(x >= 0 && x < 1, "rand() is in [0,1)"); }
template <class T> static void scalar(T lo, T hi) { Src r; T a = T(); random_init(r, "", a); CHECK(a >= lo && a <= hi, "in range"); }
ENTRY(ints) { switch (sym_pick("type", 0, 7)) { case 0: scalar<short>(0, 32767); break; case 1: scalar<unsigned short>(0, 65535); break; case 2: scalar<int>(0, 2147483647); break; case 3: scalar<unsigned>(0, ~0u); break; case 4: scalar<signed char>(0, 127); break; case 5: scalar<unsigned char>(0, 255); break; case 6: scalar<char>(' ', 126); break; case 7: scalar<wchar_t>(' ', 126); break; } } //@@ time=200/800
ENTRY(longs) { if (sym<bool>("u")) { Src r; unsigned long a = 0; random_init(r, "", a); } else scalar<long>(0, ~0ul >> 1); } //@@ time=200/800
ENTRY(bools) { bool seen = sym<bool>("b"); Src r; bool a = seen; random_init(r, "", a); sym_expect("true"); sym_expect("false"); sym_reach(a ? "true" : "false"); }
ENTRY(enums) { Src r; Sparse e = (Sparse)50; Enum_handle<Sparse> h(e); random_init(r, "", h); CHECK(e == s0 || e == s1 || e == s2 || e == s3, "a defined value"); Two t = (Two)9; random_init(r, "", t); CHECK(t == first || t == second, "a defined value"); sym_expect("first"); sym_expect("last"); if (e == s0) sym_reach("first"); if (e == s3) sym_reach("last"); }
ENTRY(default_source_enum) { random_init_t r; Sparse e = (Sparse)50; random_init(r, "", e); CHECK(e == s0 || e == s1 || e == s2 || e == s3, "a defined value, even for the greatest random number"); }
ENTRY(members) { Most r; r.v = sym_pick("k", 0, 15) / 16.0; All x; x.poison(); int pv = 1; x.p = &pv; random_init(r, "", x); 
  bool ok = x.a >= 0 && x.b >= 0 && x.hidden() >= 0 && x.in.q >= 0 && x.ins[0].q >= 0 && x.ins[1].q >= 0; for (int i = 0; i < 3; i++) ok &= x.arr[i] >= 0 && x.m[0][i] >= 0 && x.m[1][i] >= 0; CHECK(ok, "all integer members are set"); ok = true; for (int i = 0; i < 4; i++) ok &= x.txt[i] >= 32 && x.txt[i] < 127; CHECK(ok, "char arrays hold printable characters");
  CHECK((x.in.t == first || x.in.t == second) && (x.ins[0].t == first || x.ins[0].t == second) && (x.ins[1].t == first || x.ins[1].t == second) && (x.e == s0 || x.e == s1 || x.e == s2 || x.e == s3), "enums hold defined values"); CHECK(x.k == 4 && x.ex == 77 && x.p == &pv && pv == 1, "const, excluded and pointer members are left alone"); }
ENTRY(member_draws) { // draws are independent: arrays are not filled with one value
  Eighths r; Inner in[1]; int arr[3] = {-1, -1, -1}; random_init(r, "", is_array(), arr[0], 1, 3); sym_expect("differ"); if (arr[0] != arr[1] && arr[1] != arr[2]) sym_reach("differ"); for (int i = 0; i < 3; i++) CHECK(arr[i] >= 0, "set"); (void)in; }
ENTRY(two_dim) { Most r; r.v = 0.5; int a[2][3][2]; memset(a, 255, sizeof a); int guard = -1; random_init(r, "", is_array(), a[0][0][0], 3, 2, 3, 2); for (int i = 0; i < 12; i++) CHECK((&a[0][0][0])[i] >= 0, "every element"); CHECK(guard == -1, "no more"); }
template <class C> static void cont(unsigned lo, bool fixedLen) { struct First: public random_init_t { int n; double rand() { if (n++ == 0) return sym_pick("len", 0, 19) / 20.0; return n < 4 ? sym_pick("k", 0, 7) / 8.0 : 0.25 + n / 100.0; } } r; r.n = 0; C c; random_init(r, "", c); CHECK(c.size() <= 9, "at most nine elements"); sym_expect("empty"); sym_expect("nine"); if (c.empty()) sym_reach("empty"); if (c.size() == 9) sym_reach("nine"); unsigned bad = 0; for (typename C::iterator i = c.begin(); i != c.end(); ++i) bad += *i < (typename C::value_type)lo; CHECK(bad == 0, "elements are initialised"); }
ENTRY(vectors) { cont<std::vector<int> >(0, true); }
ENTRY(lists) { cont<std::list<short> >(0, true); }
ENTRY(deques) { cont<std::deque<char> >(32, true); }
ENTRY(strings) { cont<std::string>(32, true); }
ENTRY(sets) { cont<std::set<int> >(0, false); }
ENTRY(maps) { struct First: public random_init_t { int n; double rand() { if (n++ == 0) return sym_pick("len", 0, 19) / 20.0; return n < 4 ? sym_pick("k", 0, 7) / 8.0 : n / 30.0; } } r; r.n = 0; std::map<short, short> c; random_init(r, "", c); CHECK(c.size() <= 9, "at most nine elements"); for (std::map<short, short>::iterator i = c.begin(); i != c.end(); ++i) CHECK(i->first >= 0 && i->second >= 0, "keys and values are initialised"); sym_expect("several"); if (c.size() > 5) sym_reach("several"); }
ENTRY(normalise) { Most r; r.v = sym_pick("k", 1, 15) / 16.0; Holder h; h.n[0].x = h.n[0].y = h.n[1].x = -1; random_init(r, "", h); for (int i = 0; i < 2; i++) CHECK(h.n[i].x >= 0 && h.n[i].y == (h.n[i].x ^ 1), "objects are normalised after being initialised"); for (unsigned i = 0; i < h.v.size(); i++) CHECK(h.v[i].y == (h.v[i].x ^ 1), "so are elements"); CHECK(h.v.size() == (unsigned)(10 * r.v), "number of elements"); }
ENTRY(doubles) { Most r; r.v = sym_pick("k", 0, 7) / 8.0; double d = -1; float f = -1; random_init(r, "", d); random_init(r, "", f); CHECK(d >= 0 && f >= 0, "floating point numbers are initialised"); }
