#include <functional>
// packing by signature, and arguments that cannot be sent
#define VALS(i, T) , AI[i - 1]
#define PACKS(n) case n: { PackFunctor<pack_t> b, d; packSig<long(TYPES##n)>(b LISTA##n); ARGS##n(PUTARG_D) CHECK(b.size() == d.size() && !memcmp(b.data(), d.data(), b.size()), "arguments take the types of the signature"); CHECK(b.call(&fr##n) == 1000 + n + LOG[0], "result"); logged(n, n, 0); CHECK(b.pos() == b.size(), "everything is consumed"); break; }
#define PUTARG_D(i, T) put<T>(d, i);
template <class F, class B, class... A> void packSig(B& b, A... a) { b.template pack<F>(a...); }
ENTRY(pack_signature) { reset(); unsigned n = sym_pick("n", 1, 8); mkargs(8); switch (n) { PACKS(1) PACKS(2) PACKS(3) PACKS(4) PACKS(5) PACKS(6) PACKS(7) PACKS(8) } }
ENTRY(pack_as_is) { reset(); mkargs(3); PackFunctor<pack_t> b; std::string s = sym_string("s", sym_pick("n", 0, 2)); b.pack(AI[0], (short)AI[1], s); pack_t d; d << AI[0] << (short)AI[1] << s; CHECK(b.size() == d.size() && !memcmp(b.data(), d.data(), b.size()), "arguments are packed as they are"); b.clear(); b.pack(); CHECK(b.size() == 0, "no arguments"); }
namespace vf { std::string got; int cs(const char* s, int k) { CALLS++; got = s; return k; } int two(const char* s, const char* t) { CALLS++; got = std::string(s) + "|" + t; return 1; } int bad(int, int* p) { CALLS++; return 0; } int bad2(std::vector<int>& v) { CALLS++; return 0; } int bad3(int k, char* s) { CALLS++; return 0; } struct H { int bad(int*) { CALLS++; return 1; } int lv(int& x) { CALLS++; return 1; } int ok(const int& x) { CALLS++; return x; } }; }
ENTRY(c_strings) { reset(); unsigned n = sym_pick("n", 0, 2); std::string s; for (unsigned i = 0; i < n; i++) { char c = sym<char>("c"); sym_assume(c != 0); s += c; } int k = sym<int>("k"); PackFunctor<pack_t> b; b << s << k; CHECK(b.call(&cs) == k && CALLS == 1 && got == s && b.pos() == b.size(), "a C string argument"); PackFunctor<pack_t> d; d << s << std::string("xy"); CHECK(d.call(&two) == 1 && got == s + "|xy", "two C strings"); }
ENTRY(unacceptable) { reset(); int x = sym<int>("x"); PackFunctor<pack_t> b; b << x << x << x; int refused = 0; try { b.call(&bad); } catch (std::exception&) { refused++; } b.reseto(); try { b.call(&bad3); } catch (std::exception&) { refused++; } CHECK(refused == 2 && !CALLS, "a call needing a pointer is refused");
  H h; refused = 0; int y = 3; try { bindMethod(h, &H::bad)(&y); } catch (std::exception&) { refused++; } try { bindMethod(h, &H::lv)(y); } catch (std::exception&) { refused++; } CHECK(refused == 2 && !CALLS, "methods with arguments that cannot be given are refused"); CHECK(bindMethod(h, &H::ok)(x) == x && CALLS == 1, "a const reference can be given"); CHECK(!ArgAcceptable<int*>::value && !ArgAcceptable<int&>::value && ArgAcceptable<const int&>::value && ArgAcceptable<const char*>::value && ArgAcceptable<std::string>::value && !ArgAcceptable<char*>::value && !ArgAcceptable<int&&>::value, "which arguments can be given"); }
ENTRY(std_functions) { reset(); int a = sym<int>("a"); short s = sym<short>("s"); std::function<long(int, short)> f = [&](int x, short y) { CALLS++; LOG[0] = x; LOG[1] = y; return 7L; }; typedef std::function<long(int, short)> F; CHECK(Arity<F>::value == 2 && (Same<Return<F>::T, long>::v) && (Same<Arg<F, 2>::T, short>::v), "types"); PackFunctor<pack_t> b; b << a << s; CHECK(b.call(f) == 7 && CALLS == 1 && LOG[0] == a && LOG[1] == s && b.pos() == b.size(), "std::function"); }
