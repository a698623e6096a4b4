#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "ref.h"
#include "function.h"
#include "vfun.h"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace classdesc::functional; using namespace vf;
namespace vf { long LOG[21]; int CALLS, WHICH; const void* SELF; }
static void reset() { CALLS = 0; WHICH = -1; SELF = 0; memset(LOG, 0, sizeof LOG); }
static long A[20]; static int AI[20];
static void mkargs(int n) { for (int i = 0; i < n; i++) { AI[i] = sym<int>("a"); } }
template <class T> long conv(int x) { return (T)x; }
template <class A, class B> struct Same { static const bool v = false; }; template <class A> struct Same<A, A> { static const bool v = true; };
static long want(int i, int x) { switch (i % 5) { case 0: return x; case 1: return (short)x; case 2: return (unsigned char)x; case 3: return x; default: return (char)x; } }
static void logged(int n, int which, const void* self) { CHECK(CALLS == 1, "called exactly once"); CHECK(WHICH == which && SELF == self, "the right function on the right object"); for (int i = 0; i < n; i++) CHECK(LOG[i] == want(i, AI[i]), "each argument at its place"); }
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20)
#define PUTARG(i, T) put<T>(b, i);
template <class T, class B> void put(B& b, int i) { T x = (T)AI[i - 1]; b << x; }
#define LOCAL(i, T) T x##i = (T)AI[i - 1];
// apply: arguments from an array
#define APPLY(n) case n: { long r = 0; apply(&r, &fr##n, AI); logged(n, n, 0); CHECK(r == 1000 + n + LOG[0], "result"); reset(); apply((void*)0, &fv##n, AI); logged(n, 100 + n, 0); reset(); \
  M##n o; o.id = sym<short>("id"); apply(&r, bindMethod(o, &M##n::r), AI); logged(n, n, &o); CHECK(r == o.id, "result of method"); reset(); apply((void*)0, bindMethod(o, &M##n::v), AI); logged(n, 100 + n, &o); break; }
ENTRY(apply_array) { reset(); unsigned n = sym_pick("n", 0, 20); mkargs(20); switch (n) { EACH(APPLY) } }
// bound methods
#define BOUND(n) case n: { ARGS##n(LOCAL) M##n o, p; o.id = sym<short>("id"); p.id = sym<short>("id2"); const M##n c = p; bound_method<M##n, long (M##n::*)(TYPES##n)> b = bindMethod(o, &M##n::r); CHECK(b(LIST##n) == o.id, "result"); logged(n, n, &o); reset(); b.rebind(p); CHECK(b(LIST##n) == p.id, "result after rebinding"); logged(n, n, &p); reset(); \
  short oid = o.id, pid = p.id; bound_method<M##n, void (M##n::*)(TYPES##n)> bv = bindMethod(o, &M##n::v); bv(LIST##n); logged(n, 100 + n, &o); reset(); bv.rebind(p); bv(LIST##n); logged(n, 100 + n, &p); CHECK(o.id == oid && p.id == pid, "objects are not altered by rebinding"); reset(); CHECK(bindMethod(o, &M##n::rc)(LIST##n) == o.id + 1, "const method"); logged(n, 200 + n, &o); reset(); CHECK(bindMethod(c, &M##n::rc)(LIST##n) == p.id + 1, "const method of const object"); logged(n, 200 + n, &c); reset(); bindMethod(c, &M##n::vc)(LIST##n); logged(n, 300 + n, &c); reset(); \
  bool t = false; try { bindMethod(c, &M##n::r)(LIST##n); } catch (std::exception&) { t = true; } CHECK(t && !CALLS, "a mutating method of a const object is refused"); CHECK((!bound_method<M##n, long (M##n::*)(TYPES##n)>::is_const) && (bound_method<M##n, long (M##n::*)(TYPES##n) const>::is_const), "constness"); break; }
ENTRY(bound) { reset(); unsigned n = sym_pick("n", 0, 20); mkargs(20); switch (n) { EACH(BOUND) } }
// a call stored in a buffer
#define CALLB(n) case n: { PackFunctor<pack_t> b; ARGS##n(PUTARG) char more = sym<char>("more"); size_t sz = b.size(); b << more; CHECK(b.call(&fr##n) == 1000 + n + LOG[0], "result"); logged(n, n, 0); CHECK(b.pos() == sz, "exactly the arguments are consumed"); reset(); \
  b.reseto(); b.call(&fv##n); logged(n, 100 + n, 0); CHECK(b.pos() == sz, "exactly the arguments are consumed"); reset(); M##n o; o.id = sym<short>("id"); b.reseto(); CHECK(callOnBuffer(b, bindMethod(o, &M##n::r)) == o.id, "result of method"); logged(n, n, &o); CHECK(b.pos() == sz, "exactly the arguments are consumed"); reset(); b.reseto(); callOnBuffer(b, bindMethod(o, &M##n::v)); logged(n, 100 + n, &o); CHECK(b.pos() == sz, "exactly the arguments are consumed"); char m2 = 0; b >> m2; CHECK(m2 == more, "what follows is intact"); break; }
ENTRY(call_buffer) { reset(); unsigned n = sym_pick("n", 0, 20); mkargs(20); switch (n) { EACH(CALLB) } }
#define SHORTB(n) case n: { PackFunctor<pack_t> f; ARGS##n(PUTARG_F) unsigned k = sym_pick("k", 0, f.size() - 1); PackFunctor<pack_t> b; b.packraw(f.data(), k); bool t = false; try { b.call(&fr##n); } catch (std::exception&) { t = true; } CHECK(t && !CALLS, "a call with arguments missing does not happen"); break; }
#define PUTARG_F(i, T) put<T>(f, i);
ENTRY(call_short) { reset(); unsigned n = sym_pick("n", 1, 6); mkargs(6); switch (n) { SHORTB(1) SHORTB(2) SHORTB(3) SHORTB(4) SHORTB(5) SHORTB(6) } }
// traits
#define ARGT(i, U) CHECK((Same<Arg<F, i>::T, U>::v), "argument type");
#define TRAIT(n) { typedef long (*F)(TYPES##n); CHECK(Arity<F>::value == n && Arity<F>::V == n, "arity"); CHECK((Same<Return<F>::T, long>::v), "return type"); ARGS##n(ARGT) CHECK(is_nonmember_function_ptr<F>::value && !is_member_function_ptr<F>::value && functional::is_function<F>::value && !is_const_method<F>::value, "kind"); } \
 { typedef void (M##n::*F)(TYPES##n); CHECK(Arity<F>::value == n, "arity"); CHECK((Same<Return<F>::T, void>::v && Same<ClassOf<F>::T, M##n>::v), "return type, class"); ARGS##n(ARGT) CHECK(!is_nonmember_function_ptr<F>::value && is_member_function_ptr<F>::value && functional::is_function<F>::value && !is_const_method<F>::value, "kind"); } \
 { typedef long (M##n::*F)(TYPES##n) const; CHECK(Arity<F>::value == n, "arity"); CHECK((Same<Return<F>::T, long>::v && Same<ClassOf<F>::T, M##n>::v), "return type, class"); ARGS##n(ARGT) CHECK(!is_nonmember_function_ptr<F>::value && is_member_function_ptr<F>::value && functional::is_function<F>::value && is_const_method<F>::value, "kind"); } \
 { typedef bound_method<M##n, long (M##n::*)(TYPES##n)> F; CHECK(Arity<F>::value == n, "arity"); CHECK((Same<Return<F>::T, long>::v), "return type"); ARGS##n(ARGT) }
ENTRY(traits) { EACH(TRAIT) CHECK(!functional::is_function<int>::value && !functional::is_function<M1>::value, "not functions"); }
// all arguments satisfy a predicate
template <class T> struct IsInt { static const bool value = Same<T, int>::v; };
#define ALL(n) { typedef void (*F)(TYPES##n); CHECK((AllArgs<F, IsInt>::value) == (n < 2), "all arguments"); CHECK((AllArgs<F, is_rvalue>::value), "values"); }
template <class T> struct NotLongP { static const bool value = !Same<T, long*>::v; };
ENTRY(all_args) { EACH(ALL) CHECK((AllArgs<void (*)(int, int, int), IsInt>::value), "all"); CHECK(!(AllArgs<void (*)(int, int, long*), NotLongP>::value), "last"); CHECK(!(AllArgs<void (*)(long*, int, int), NotLongP>::value), "first"); CHECK(!(AllArgs<void (*)(int, long*, int), NotLongP>::value), "middle"); CHECK(!(AllArgs<void (*)(int, int&), is_rvalue>::value), "reference"); }
// arguments that are strings, containers, references
namespace vf { std::string GS; std::vector<int> GV; int fs(const std::string& s, std::vector<int> v, const int& k) { GS = s; GV = v; CALLS++; return k; } struct Str { std::string s; void set(std::string t) { s = t; } std::string get() const { return s; } size_t add(const std::string& a, const std::string& b) { s += a; s += b; return s.size(); } }; }
ENTRY(objects) { reset(); std::string s = sym_string("s", sym_pick("ns", 0, 2)); std::vector<int> v; unsigned n = sym_pick("nv", 0, 2); for (unsigned i = 0; i < n; i++) v.push_back(sym<int>("v")); int k = sym<int>("k"); PackFunctor<pack_t> b; b << s << v << k; CHECK(b.call(&fs) == k, "result"); CHECK(CALLS == 1 && GS == s && GV == v && b.pos() == b.size(), "arguments by reference and by value");
  Str o; std::string t = sym_string("t", 1); PackFunctor<pack_t> c; c << s << t; CHECK(c.call(bindMethod(o, &Str::add)) == s.size() + 1 && o.s == s + t, "method with references"); c.reseto(); c.call(bindMethod(o, &Str::set)); CHECK(o.s == s, "method taking a string"); CHECK(c.call(bindMethod(o, &Str::get)) == s, "method returning a string"); }
