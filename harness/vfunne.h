// noexcept functions and methods: as the others
namespace vf { long nf(int a, short b) noexcept { CALLS++; LOG[0] = a; LOG[1] = b; return a; } struct N { int id; long r(int a) noexcept { CALLS++; LOG[0] = a; SELF = this; return id; } long rc(int a) const noexcept { CALLS++; LOG[0] = a; SELF = this; return id; } void v() noexcept { CALLS++; SELF = this; } void vc() const noexcept { CALLS++; SELF = this; } long (*fp)(int) = nullptr; }; }
ENTRY(noexcepts) { reset(); int a = sym<int>("a"); short s = sym<short>("s"); PackFunctor<pack_t> b; b << a << s; CHECK(b.call(&nf) == a && CALLS == 1 && LOG[0] == a && LOG[1] == s && b.pos() == b.size(), "noexcept function"); int args[2] = {a, s}; long r = 0; reset(); apply(&r, &nf, args); CHECK(CALLS == 1 && LOG[0] == a && LOG[1] == s && r == a, "noexcept function from an array");
  N o, p; o.id = sym<int>("id"); p.id = sym<int>("id2"); const N& c = o; reset(); auto m = bindMethod(o, &N::r); CHECK(m(a) == o.id && SELF == &o && LOG[0] == a, "noexcept method"); m.rebind(p); CHECK(m(a) == p.id && SELF == &p && CALLS == 2, "rebound"); reset(); CHECK(bindMethod(c, &N::rc)(a) == o.id && CALLS == 1, "const noexcept method of a const object"); CHECK(bindMethod(o, &N::rc)(a) == o.id && CALLS == 2, "const noexcept method"); reset(); bindMethod(o, &N::v)(); CHECK(CALLS == 1 && SELF == &o, "void"); bindMethod(c, &N::vc)(); CHECK(CALLS == 2 && SELF == &o, "void const");
  reset(); bool t = false; try { bindMethod(c, &N::r)(a); } catch (std::exception&) { t = true; } CHECK(t && !CALLS, "a mutating method of a const object is refused"); b.reseto(); CHECK(callOnBuffer(b, bindMethod(o, &N::rc)) == o.id && CALLS == 1 && LOG[0] == a && b.pos() == sizeof(int), "from a buffer"); }
ENTRY(noexcept_traits) { { typedef long (N::*F)(int) noexcept; CHECK(Arity<F>::value == 1 && (Same<Return<F>::T, long>::v) && (Same<Arg<F, 1>::T, int>::v) && (Same<ClassOf<F>::T, N>::v), "types"); CHECK(is_member_function_ptr<F>::value && !is_const_method<F>::value && !is_nonmember_function_ptr<F>::value && functional::is_function<F>::value, "noexcept method"); }
  { typedef long (N::*F)(int) const noexcept; CHECK(Arity<F>::value == 1 && (Same<Return<F>::T, long>::v) && (Same<Arg<F, 1>::T, int>::v) && (Same<ClassOf<F>::T, N>::v), "types"); CHECK(is_member_function_ptr<F>::value && is_const_method<F>::value && !is_nonmember_function_ptr<F>::value, "const noexcept method"); }
  { typedef long (*F)(int, short) noexcept; CHECK(Arity<F>::value == 2 && (Same<Return<F>::T, long>::v) && (Same<Arg<F, 2>::T, short>::v), "types"); CHECK(!is_member_function_ptr<F>::value && is_nonmember_function_ptr<F>::value && functional::is_function<F>::value, "noexcept function"); } 
  { typedef long (*N::*F)(int); CHECK(Arity<F>::value == 1 && (Same<Return<F>::T, long>::v) && (Same<ClassOf<F>::T, N>::v) && is_nonmember_function_ptr<F>::value && !is_member_function_ptr<F>::value, "member that points to a function"); }
  { typedef long (*N::*F)(int) noexcept; CHECK(Arity<F>::value == 1 && (Same<Return<F>::T, long>::v) && (Same<ClassOf<F>::T, N>::v) && is_nonmember_function_ptr<F>::value && !is_member_function_ptr<F>::value, "member that points to a noexcept function"); } }
