// C16: the descriptor generator: every member and base of a class is described, once, in order, and nothing else
//@ std: c++98
//@ bounds: classes made of every form and every chosen pair (thorough: every pair and triple of a kind) of the 62 forms of member declaration below (data, arrays, bit-fields, initialisers, functions, constructors, operators, friends, nested types, enums, unions, typedefs, labels), with arbitrary identifiers (one to three symbolic characters) and arbitrary bytes in literals, comments and white space; two bases in every form and access; every pair of the 40 forms of namespace-level declaration, chains of three (thorough: four) scopes; templates of two (three) parameters; enums of two (three) enumerators in every form; any two (three) bytes after each of nine beginnings
//@ assume: valid C++ in which distinct members have distinct names; input that can be rewound (a file, not a pipe)
#define VGEN_SOURCE "classdesc.cc"
#include "vgen.h"
typedef std::vector<std::string> L; typedef std::string S;
static S ident(const char* nm, unsigned n) { S s; for (unsigned i = 0; i < n; i++) { char c = sym<char>(nm); sym_assume(c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (i && c >= '0' && c <= '9')); s += c; } return s; }
static S any(const char* nm) { S s = sym_string(nm, 1); sym_assume(s[0] != 0); return s; }
struct B { S src; L ops, types; S cls, kind; bool mp, hide; B(const S& kind, const S& c) : src(kind + " " + c.substr(c.rfind(':') + 1) + " {"), cls(c), kind(kind), mp(false), hide(false) {}
  void op(const S& n, const S& a) { if (!hide) ops.push_back("::pk(targ,desc+\"." + n + "\"," + a + ");"); }
  void ty(const S& n, const S& a) { if (!hide) types.push_back("::pk_type<_CD_TYPE," + kind + " " + cls + " >(targ,desc+\"." + n + "\"," + a + ");"); }
  void old(const S& n) { op(n, "arg." + n); }
  void mem(const S& n) { if (mp) { op(n, "arg,&" + cls + "::" + n); ty(n, "&" + cls + "::" + n); } else old(n); }
  void arr(const S& n, const S& ix, const S& dims) { op(n, "classdesc::is_array(),arg." + n + ix + "," + dims); ty(n, "&" + cls + "::" + n); }
  void uni(const S& n) { op(n, "classdesc::is_array(),(char&)(arg." + n + "),1,sizeof(arg." + n + ")"); ty(n, "&" + cls + "::" + n); }
  void fn(const S& n) { op(n, "arg,&" + cls + "::" + n); ty(n, "&" + cls + "::" + n); }
  void sfn(const S& n) { op(n, "&" + cls + "::" + n); ty(n, "&" + cls + "::" + n); }
  void cs(const S& n) { S a = mp ? "classdesc::is_const_static()," + ("&" + cls + "::" + n) : "classdesc::is_const_static(),arg." + n; op(n, a); if (mp) ty(n, a); } };
enum { NF = 62 };
static S lit(const char* nm, char quote) { S s = any(nm); sym_assume(s[0] != quote && s[0] != '\\' && s[0] != '\n'); return s; }
static void form(B& b, unsigned k, const S& N) { S& s = b.src; S M = N + "m";
  switch (k) {
  case 0: s += "int " + N + ";"; b.mem(N); break;
  case 1: s += "const std::vector<int, A<B> >& " + N + ";"; b.old(N); break;
  case 2: s += "unsigned long " + N + ", *" + M + ", " + N + "q[2][X+1];"; b.mem(N); b.mem(M); b.arr(N + "q", "[0][0]", "2, 2, X + 1"); break;
  case 3: s += "int " + N + "[3];"; b.arr(N, "[0]", "1, 3"); break;
  case 4: s += "unsigned " + N + ":3, " + M + ":X+1;"; b.mem(N); b.mem(M); break;
  case 5: s += "mutable volatile X::Y " + N + ";"; b.mem(N); break;
  case 6: s += "int " + N + "=f(1, a, b, c);"; b.mem(N); break;
  case 7: s += "X " + N + "={1,{2,3},4}, " + M + ";"; b.mem(N); b.mem(M); break;
  case 8: s += "X " + N + "{1,{2,3}}, " + M + "{};"; b.mem(N); b.mem(M); break;
  case 9: s += "int " + N + "=(a,b);"; b.mem(N); break;
  case 10: s += "const char* " + N + "=\"" + lit("c", '"') + "}\";"; b.mem(N); break;
  case 11: s += "char " + N + "='" + lit("c", '\'') + "', " + M + "='\\'', " + N + "q='\"';"; b.mem(N); b.mem(M); b.mem(N + "q"); break;
  case 12: s += "static int " + N + ";"; b.mem(N); break;
  case 13: s += "static const int " + N + "=3;"; b.cs(N); break;
  case 14: s += "static const int " + N + "=3, " + M + "=4;"; b.cs(N); b.cs(M); break;
  case 15: s += "static int " + N + ", " + M + ";"; b.mem(N); b.mem(M); break;
  case 16: s += "const int " + N + "; static int " + M + ";"; b.mem(N); b.mem(M); break;
  case 17: s += "int (*" + N + ")(int, X<Y>);"; b.fn(N); break;
  case 18: s += "int (X::*" + N + ")(int);"; b.fn(N); break;
  case 19: s += "int " + N + "();"; b.fn(N); break;
  case 20: s += "virtual const X& " + N + "(int a, const Y<Z>& b = g(1,2)) const;"; b.fn(N); break;
  case 21: s += "static X " + N + "(int);"; b.sfn(N); break;
  case 22: s += "inline int " + N + "(int x) {if (x) {return '}';} return \"" + lit("c", '"') + "}{\"[0]; }"; b.fn(N); break;
  case 23: s += "virtual void " + N + "()=0;"; b.fn(N); break;
  case 24: s += "void " + N + "()=delete;"; break;
  case 25: s += "Z(); Z(const Z&)=default; explicit Z(int x): a(x), b{x,1}, c({1}) { if (x) {} } ~Z() {}"; break;
  case 26: s += "virtual ~Z();"; break;
  case 27: s += "Z& operator=(const Z&); bool operator()(int) const {return 1;} operator X<int>() const; void* operator new[](size_t);"; break;
  case 28: s += "friend class X; friend void g(Z&); template <class T> friend struct Y;"; break;
  case 29: s += "friend bool operator<(const Z& a, const Z& b) {return a.x<b.x;}"; break;
  case 30: s += "int " + N + "(); int " + N + "(int);"; break;
  case 31: s += "template <class T> void " + N + "(T t) {t;}"; break;
  case 32: s += "template <class T> struct " + N + " {T q;};"; break;
  case 33: s += "struct " + N + "q {int q; struct R {int r;} s;} " + N + ", *" + M + ";"; b.mem(N); b.mem(M); break;
  case 34: s += "class " + M + "; " + M + "* " + N + ";"; b.mem(N); break;
  case 35: s += "struct X " + N + ";"; b.mem(N); break;
  case 36: s += "enum " + N + "q {a, b=3, c=f(1,2)} " + N + ";"; b.mem(N); break;
  case 37: s += "enum {a=1,b};"; break;
  case 38: s += "enum class " + N + "q: char {a,b}; " + N + "q " + N + ";"; b.mem(N); break;
  case 39: s += "union {int a; float b;} " + N + ";"; b.uni(N); break;
  case 40: s += "union {int a; float b;};"; break;
  case 41: s += "union " + N + "q {int a; float b;} " + N + ", " + M + ";"; b.uni(N); b.uni(M); break;
  case 42: s += "typedef int (*" + N + ")(int); typedef struct {int q;} " + M + "; typedef X<Y,Z> " + N + "q;"; break;
  case 43: s += "using " + N + "=int; using X::" + M + ";"; break;
  case 44: s += "static_assert(sizeof(Z)==4,\"};" + lit("c", '"') + "\");"; break;
  case 45: s += "decltype(f(1,2)) " + N + ";"; b.mem(N); break;
  case 46: s += "alignas(8) int " + N + ";"; b.mem(N); break;
  case 47: s += "[[deprecated(\"x\")]] int " + N + "; int " + M + " [[maybe_unused]];"; b.mem(N); b.mem(M); break;
  case 48: s += "public: int " + N + "; protected: int " + M + "; public:"; b.mem(N); b.mem(M); break;
  case 49: s += "std::function<int(int,char)> " + N + "; std::array<X,(3>2)> " + M + ";"; b.mem(N); b.mem(M); break;
  case 50: s += "int " + N + "=1'000, " + M + "=0xFF'FF;"; b.mem(N); b.mem(M); break;
  case 51: s += "const char* " + N + "=R\"q(};)\"" + any("c") + "\")q\";"; b.mem(N); break;
  case 52: s += "\n#define Q(x) {\\\n }\n  # if 1\nint " + N + ";\n#endif"; b.mem(N); break;
  case 53: s += "auto " + N + "() -> X<Y>;"; b.fn(N); break;
  case 54: s += "void " + N + "() const noexcept(true) override;"; b.fn(N); break;
  case 55: s += ";;"; break;
  case 56: s += "unsigned :4;"; break;
  case 57: s += "const X* const " + N + "; ::X::Y const& " + M + ";"; b.mem(N); b.old(M); break;
  case 58: s += "void " + N + "(int (*f)(int), X x[3]);"; b.fn(N); break;
  case 59: s += "std::map<int,int> " + N + "=std::map<int,int>(), " + M + ";"; b.mem(N); b.mem(M); break;
  case 60: s += "int " + N + "[sizeof(int[2])][2], " + M + "[2]={1,2};"; b.arr(N, "[0][0]", "2, sizeof ( int [ 2 ] ), 2"); b.arr(M, "[0]", "1, 2"); break;
  case 61: s += "X<Y<1>> " + N + "; X<Y<Z<1>>,2> " + M + ";"; b.mem(N); b.mem(M); break;
  } s += "\n"; }
static L nosp(const L& v) { L r; for (size_t i = 0; i < v.size(); i++) { S t; for (size_t j = 0; j < v[i].size(); j++) if (v[i][j] != ' ') t += v[i][j]; r.push_back(t); } return r; }
static void check(B& b, const S& opts) { S o; CHECK(run_gen(b.src, "-nodef " + opts + " pk", o) == 0, "accepted"); std::vector<Desc> d = descs(o, "pk"); const Desc* z = find(d, b.kind + " " + b.cls); CHECK(z != 0, "the class is described"); 
#ifdef NATIVE
  std::cerr << b.src << "\n"; for (size_t i = 0; i < std::max(z->ops.size(), b.ops.size()); i++) std::cerr << "  " << (i < z->ops.size() ? z->ops[i] : "") << "   |   " << (i < b.ops.size() ? b.ops[i] : "") << "\n"; for (size_t i = 0; i < std::max(z->types.size(), b.types.size()); i++) std::cerr << "  " << (i < z->types.size() ? z->types[i] : "") << "   |   " << (i < b.types.size() ? b.types[i] : "") << "\n";
#endif
  CHECK(nosp(z->ops) == nosp(b.ops), "exactly the members, in order"); CHECK(nosp(z->types) == nosp(b.types), "member pointers"); }
// what may follow any form
static const unsigned probe[] = {0, 3, 12, 13, 19, 21, 31, 34, 7};
ENTRY(pairs) { B b("struct", "::Z"); unsigned k = sym_pick("k", 0, NF - 1), m = sym_pick("m", 0, 8); b.src += "int aa;"; b.mem("aa"); form(b, k, ident("x", 2) + "1"); form(b, probe[m], "y2"); b.src += "int zz; };\nstruct End {int e;};\n"; b.mem("zz"); check(b, ""); } //@@ fix:m=0..8 time=300 weight=4
ENTRY(all_pairs) { B b("class", "::Z"); unsigned k = sym_pick("k", 0, NF - 1), m = sym_pick("m", 0, NF - 1); form(b, k, ident("x", 1) + "1"); form(b, m, "y2"); b.src += "int zz; };"; b.mem("zz"); check(b, ""); } //@@ fix:k=0..61 time=600 tier=thorough
ENTRY(triples) { B b("struct", "::Z"); static const unsigned f[] = {0, 3, 8, 12, 13, 17, 19, 25, 29, 30, 31, 32, 33, 36, 39, 42, 43, 48, 57, 58}; for (unsigned i = 0; i < 3; i++) form(b, f[sym_pick("k", 0, 19)], S("abc").substr(i, 1) + "x"); b.src += "int zz; };"; b.mem("zz"); check(b, ""); } //@@ fix:k=0..19 time=900 tier=thorough
ENTRY(member_pointers) { B b("class", "::Z"); b.mp = true; unsigned k = sym_pick("k", 0, NF - 1), m = sym_pick("m", 0, 3); form(b, k, ident("x", 1) + "1"); form(b, probe[m], "y2"); check((b.src += "int zz; };", b.mem("zz"), b), "-use_mbr_pointers"); } //@@ time=300 weight=2
ENTRY(in_template) { B b("struct", "::Z"); unsigned k = sym_pick("k", 0, NF - 1); b.src = "template <class T=A<B<int>>, int N=(3>2), class... U> struct Z {"; b.cls = "::Z<T,N,U...>"; b.mem("T"); b.ops.clear(); form(b, k, ident("x", 1) + "1"); b.src += "int zz; };"; b.mem("zz"); if (k == 26) return; check(b, ""); } //@@ time=200
// access labels: with -respect_private only what is public is described
ENTRY(privacy) { bool cls = sym<bool>("cls"), respect = sym<bool>("respect"); B b(cls ? "class" : "struct", "::Z"); b.hide = cls && respect; static const unsigned f[] = {0, 3, 12, 13, 19, 21, 33, 36, 39, 43}; form(b, f[sym_pick("k", 0, 9)], "w1"); unsigned n = sym_pick("n", 1, 2); for (unsigned i = 0; i < n; i++) { unsigned l = sym_pick("label", 0, 3); static const char* t[] = {"public:", "private:", "protected :", "struct P {private: int p;};"}; S lab = t[l]; if (l == 3) lab[7] += i; b.src += lab; if (l < 3) b.hide = respect && l != 0; form(b, i ? 0 : f[sym_pick("m", 0, 3)], S("v") + (char)('a' + i)); if (i) b.src += "class P2 {int p;}; class P3;"; } b.mem("zz"); b.src += "int zz; };"; check(b, respect ? "-respect_private" : ""); } //@@ time=300 weight=4 fix:k=0..9
// base clauses
ENTRY(bases) { bool cls = sym_pick("cls", 0, 1), respect = sym_pick("respect", 0, 1), tmpl = sym_pick("tmpl", 0, 1), onbase = TIER ? sym_pick("onbase", 0, 1) : !respect, fin = TIER ? sym_pick("final", 0, 1) : tmpl; S src = tmpl ? "template <class T>\n" : "", name = tmpl ? "::Z<T>" : "::Z"; src += (cls ? S("class Z") : S("struct Z")) + (fin ? " final" : ""); L e, t; S a = ident("b", 1) + "lassy";
  for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) { src += i ? ", " : ": "; unsigned acc = sym_pick("acc", 0, 3), v = sym_pick("virt", 0, 2); static const char* an[] = {"", "public ", "private ", "protected "}; bool pub = acc == 1 || (acc == 0 && !cls); if (v == 1) src += "virtual "; src += an[acc]; if (v == 2 && acc) src += "virtual "; S b, ty; switch (i && !TIER ? (sym_pick("form2", 0, 1) ? 3 : 4) : sym_pick(i ? "form2" : "form", 0, 6)) { case 0: b = a; break; case 1: b = "X::" + a; break; case 2: b = "A<" + a + ",B<C>>"; break; case 3: b = tmpl ? S("T::") + a : "::Y::" + a; ty = tmpl ? "typename" : ""; break; case 4: b = "A<B<" + a + "> >::C"; break; case 5: b = "::N::" + a; break; case 6: b = tmpl ? "A<T>" : "A<int>"; break; } src += b; 
    if (pub || !respect) { e.push_back(onbase ? "::pk_onbase(targ,desc+\"\",classdesc::base_cast<" + ty + b + ">::cast(arg));" : "::pk(targ,desc+\"\",classdesc::base_cast<" + ty + b + ">::cast(arg));"); if (onbase) t.push_back("::pk<_CD_TYPE," + b + ">(targ,desc+\"\");"); } }
  src += " {public: int zz; };"; e.push_back("::pk(targ,desc+\".zz\",arg.zz);"); S o; CHECK(run_gen(src, S("-nodef ") + (onbase ? "-onbase " : "") + (respect ? "-respect_private " : "") + "pk", o) == 0, "accepted"); std::vector<Desc> d = descs(o, "pk"); const Desc* z = find(d, (cls ? "class " : "struct ") + name); CHECK(z && d.size() == 1, "the class is described"); CHECK(nosp(z->ops) == nosp(e), "bases, then members"); CHECK(nosp(z->types) == nosp(t), "types of bases"); } //@@ time=300 weight=3 fix:form=0..6
// white space, comments, continuations and directives between any two tokens
ENTRY(blanks) { static const char* t[] = {"template", "<", "class", "T", ">", "struct", "Z", ":", "A", "<", "T", ">", "{", "int", "x", ",", "y", "[", "2", "]", ";", "int", "f", "(", "int", ")", "const", ";", "}", ";"}; unsigned at = sym_pick("at", 0, 29), what = sym_pick("what", 0, 6); S s; for (unsigned i = 0; i < 30; i++) { s += t[i]; if (i != at) { s += " "; continue; } S c = any("c"); switch (what) { case 0: sym_assume(isspace((unsigned char)c[0])); s += c; break; case 1: sym_assume(c[0] != '*' && c[0] != '/'); s += "/*" + c + "}*/"; break; case 2: sym_assume(c[0] != '\n' && c[0] != '\\'); s += "//" + c + "\"'/*\n"; break; case 3: s += " \\\n"; break; case 4: s += "\n#define Q \"" + lit("d", '"') + "/*\"\n"; break; case 5: sym_assume(c[0] != '*' && c[0] != '/'); s += "\n # if 1 /*" + c + "\n struct K {\n*/\n#endif // }\n"; break; case 6: sym_assume(c[0] != '*'); s += "/**" + c + "*//***/"; if (c[0] == '/') return; break; } }
  s += "\nstruct E {int e;};\n"; S o; CHECK(run_gen(s, "-nodef pk", o) == 0, "accepted"); std::vector<Desc> d = descs(o, "pk"); CHECK(d.size() == 2, "both classes"); const Desc* z = find(d, "struct ::Z<T>"); CHECK(z && find(d, "struct ::E"), "described"); L e; e.push_back("::pk(targ,desc+\"\",classdesc::base_cast<A<T>>::cast(arg));"); e.push_back("::pk(targ,desc+\".x\",arg.x);"); e.push_back("::pk(targ,desc+\".y\",classdesc::is_array(),arg.y[0],1,2);"); e.push_back("::pk(targ,desc+\".f\",arg,&::Z<T>::f);"); CHECK(nosp(z->ops) == nosp(e), "exactly the members, in order"); } //@@ time=300 weight=3
// sequences of declarations at namespace level
enum { ND = 42 };
static void decl(S& s, L& heads, S& scope, unsigned k, const S& N, std::vector<S>& close) { S q = scope + N; static const char* body = " {int m;};\n";
  switch (k) {
  case 0: s += "struct " + N + body; heads.push_back("struct " + q); break;
  case 1: s += "class " + N + ";\n"; break;
  case 2: s += "namespace " + N + " {\n"; scope += N + "::"; close.push_back(scope); return;
  case 3: s += "namespace " + N + "::" + N + "b {"; scope += N + "::" + N + "b::"; close.push_back(scope); return;
  case 4: s += "namespace {\n"; close.push_back(scope); return;
  case 5: s += "inline namespace " + N + " {\n"; scope += N + "::"; close.push_back(scope); return;
  case 6: s += "extern \"C\" {"; close.push_back(scope); return;
  case 7: s += "struct " + N + "r f(struct A a);\n"; break;
  case 8: s += "typedef struct {int m;} " + N + ";\n"; heads.push_back(scope == "::" ? N : q); break;
  case 9: s += "typedef struct " + N + " {int m;} " + N + "t;\n"; heads.push_back(scope == "::" ? N : q); break;
  case 10: s += "typedef struct " + N + " " + N + "t; typedef int " + N + "i;\n"; break;
  case 11: s += "typedef union {int a; float b;} " + N + ";\n"; heads.push_back(scope == "::" ? N : q); break;
  case 12: s += "enum " + N + " {" + N + "a, b=2};\n"; heads.push_back("enum " + q); break;
  case 13: s += "enum class " + N + ": int {a};\n"; heads.push_back("enum " + q); break;
  case 14: s += "enum {" + N + "a};\n"; break;
  case 15: s += "enum class " + N + "; enum A f();\n"; break;
  case 16: s += "template <class T> struct " + N + body; heads.push_back("struct " + q + "<T>"); break;
  case 17: s += "template <> struct " + N + "<int>" + body; heads.push_back("struct " + q + "<int>"); break;
  case 18: s += "template <class T> class " + N + "<A<T*>>" + body; heads.push_back("class " + q + "<A<T*>>"); break;
  case 19: s += "template struct " + N + "<int>; extern template class " + N + "<int>;\n"; break;
  case 20: s += "template <class T> void " + N + "(T t) {t; {}}\n"; break;
  case 21: s += "template <class T> using " + N + "=A<T>;\n"; break;
  case 22: s += "template <class T> struct " + N + ";\n"; break;
  case 23: s += "using namespace " + N + "; using X::" + N + "; using " + N + "=int; namespace " + N + "=X;\n"; break;
  case 24: s += "inline int " + N + "(int x, struct A* a) { if (x) {return '}';} return 1; }\n"; break;
  case 25: s += "static const int " + N + "=f(1,2); extern A " + N + "x[]; int " + N + "y{3};\n"; break;
  case 26: s += "struct " + N + " {int m; class P {int q;};} " + N + "v, *" + N + "p;\n"; heads.push_back("class " + q + "::P"); heads.push_back("struct " + q); break;
  case 27: s += "class " + N + " {int m; class P {int q;}; enum E {a}; public: struct Q {struct R {int q;};}; enum F {b};};\n"; heads.push_back("struct " + q + "::Q::R"); heads.push_back("struct " + q + "::Q"); heads.push_back("enum " + q + "::F"); heads.push_back("class " + q); break;
  case 28: s += "struct X::" + N + body; heads.push_back("struct " + scope + "X::" + N); break;
  case 29: s += "struct {int q;} " + N + "; union {int r;} " + N + "u; union U" + N + " {int r;};\n"; break;
  case 30: s += "\n#if 1 /* struct Q {*/\n#define " + N + " struct Q {int a;};\n#endif\n"; break;
  case 31: s += "const char* " + N + "=\"struct Q {\"; // struct Q {int a;};\n"; break;
  case 32: s += "template <class T> struct " + N + " {struct Q {int q;}; enum E {a}; template <class U> struct R {U u;}; int m;};\n"; heads.push_back("enum " + q + "<T>::E"); heads.push_back("struct " + q + "<T>"); break;
  case 33: s += "struct alignas(8) " + N + " final" + body; heads.push_back("struct " + q); break;
  case 34: s += "template <class T, template <class> class U, class... V> struct " + N + body; heads.push_back("struct " + q + "<T,U,V...>"); break;
  case 35: s += "inline bool operator<(const A& a, const A& b) {return a.x<b.x;}\nA::A(): x{1}, y(2) {}\n"; break;
  case 36: s += "typedef struct " + N + " {int m;} *" + N + "p;\n"; heads.push_back(scope == "::" ? N : q); break;
  case 37: s += "typedef int (*" + N + ")(int); typedef A<B,C> " + N + "a; typedef enum {x} " + N + "e;\n"; break;
  case 38: { static const char* a[] = {"int*", "int&", "int", "T*", "const T"}; for (unsigned i = 0; i < 5; i++) { s += S(i < 3 ? "template <>" : "template <class T>") + " struct " + N + "<" + a[i] + ">" + body; heads.push_back("struct " + q + "<" + a[i] + ">"); } break; }
  case 40: s += "typedef struct {int m;} *" + N + "p, " + N + "; typedef int " + N + "i, *" + N + "j;\n"; heads.push_back(scope == "::" ? N : q); break;
  case 41: s += "typedef struct: A, B<C,D> {int m;} " + N + ", *" + N + "p, " + N + "a[2];\n"; heads.push_back(scope == "::" ? N : q); break;
  case 39: s += "template <> struct " + N + "<A<int>::B>" + body + "template <> struct A<int>::" + N + body; heads.push_back("struct " + q + "<A<int>::B>"); break; } }
static S strip(const S& x) { S r; for (size_t j = 0; j < x.size(); j++) if (x[j] != ' ') r += x[j]; return r; }
static void sequence(const unsigned* k, unsigned n, const S& opts) { S s, scope = "::"; L heads; std::vector<S> close; unsigned ends = n; for (unsigned i = 0; i < n; i++) { decl(s, heads, scope, k[i], S("stu").substr(i, 1) + "x", close); if (close.size() && sym<bool>("close")) { s += "}"; close.pop_back(); scope = "::"; if (close.size()) scope = close.back(); } } for (size_t i = 0; i < close.size(); i++) s += "}"; s += "struct end_ {int m;};"; heads.push_back("struct ::end_"); S o; CHECK(run_gen(s, "-nodef " + opts + "pk", o) == 0, "accepted"); std::vector<Desc> d = descs(o, "pk"); 
#ifdef NATIVE
  std::cerr << s << "\n"; for (size_t i = 0; i < d.size(); i++) std::cerr << d[i].head << "\n"; for (size_t i = 0; i < heads.size(); i++) std::cerr << "  exp " << heads[i] << "\n";
#endif
  CHECK(d.size() == heads.size(), "exactly the classes and enums defined"); for (size_t i = 0; i < d.size(); i++) CHECK(strip(d[i].head) == strip(heads[i]), "by their full names, in order"); for (size_t i = 0; i < d.size(); i++) if (strip(d[i].head).find("enum::") != 0 && d[i].ops.size() == 1 && d[i].ops[0].find("m") != S::npos && d[i].ops[0].find("arg.m") != S::npos) CHECK(d[i].ops[0] == "::pk(targ,desc+\".m\",arg.m);", "member"); }
ENTRY(declarations) { unsigned k[2] = {sym_pick("k", 0, ND - 1), sym_pick("l", 0, ND - 1)}; sequence(k, 2, ""); } //@@ time=300 weight=4 fix:k=0..41
ENTRY(scopes) { static const unsigned f[] = {0, 2, 3, 4, 5, 6, 23, 16, 12}; unsigned k[4]; k[0] = f[sym_pick("k", 1, 5)]; for (unsigned i = 1; i < (TIER ? 4 : 3); i++) k[i] = f[sym_pick("l", 0, 8)]; sequence(k, TIER ? 4 : 3, ""); } //@@ time=300 weight=4 fix:k=1..5
// -typeName: names of template types depend on every parameter
static S after(const S& o, const S& from, const S& a, const S& b) { size_t p = o.find(from); CHECK(p != S::npos, "the type has a name"); if (p == S::npos) return ""; p = o.find(a, p); CHECK(p != S::npos, "the type has a name"); p += a.size(); return o.substr(p, o.find(b, p) - p); }
ENTRY(type_names) { unsigned n = sym_pick("n", 1, TIER ? 3 : 2), spec = sym_pick("spec", 0, 4); S src = "template <", e, args, p[3], v[3]; for (unsigned i = 0; i < n; i++) { unsigned k = sym_pick(i ? "kind2" : "kind", 0, i + 1 == n && !spec ? 9 : 7); p[i] = ident("p", 1) + S("xyz").substr(i, 1); static const char* ty[] = {"class", "typename", "int", "unsigned long", "bool", "std::size_t", "const char", "class", "class...", "typename ..."}; bool pack = k > 7; src += (i ? ", " : "") + S(ty[k]) + " " + p[i]; if (k == 7) src += i % 2 ? "=A<B<int>, C>" : "=int"; v[i] = k < 2 || k == 7 ? "\"+typeName<" + p[i] + ">()+\"" : pack ? "\"+varTn<" + p[i] + "...>()+\"" : "\"+classdesc::valueName(" + p[i] + ")+\""; args += (i ? "," : "") + p[i] + (pack ? "..." : ""); e += (i ? "," : "") + v[i]; }
  S sa; if (spec) { e = sa = ""; for (unsigned i = 0; i < n; i++) { if (i) { e += ","; sa += ", "; } S x = i && spec > 1 ? "int" : p[i], w = i && spec > 1 ? S("int") : v[i]; switch (spec) { case 1: case 2: sa += x + "*"; e += w + "*"; break; case 3: sa += "A<" + x + ", const B<" + x + ">*>"; e += "A<" + w + ",constB<" + w + ">*>"; break; case 4: sa += "A<N::" + x + "x, x" + x + ", " + x + ">"; e += "A<N::" + x + "x,x" + x + "," + w + ">"; break; } } args = sa; }
  src += "> struct Zed" + (spec ? "<" + sa + ">" : S()) + " {int m;};"; S o; CHECK(run_gen(src, "-nodef -typeName pk", o) == 0, "accepted"); CHECK(strip(after(o, "struct tn<", "<", " >\n")) == "::Zed<" + strip(args) + ">", "the type's name is defined"); CHECK(strip(after(o, "struct tn<", "{return \"", "\";}")) == "::Zed<" + e + ">", "the name has every parameter"); std::vector<Desc> d = descs(o, "pk"); CHECK(d.size() == 1 && strip(d[0].head) == "struct::Zed<" + strip(args) + ">", "the type is described"); } //@@ time=300 weight=3 fix:n=1..2/1..3 fix:spec=0..4
// enums: each enumerator once, qualified as its enum is
ENTRY(enum_table) { unsigned n = sym_pick("n", 0, TIER ? 3 : 2), scope = sym_pick("scope", 0, 3); bool cls = sym_pick("cls", 0, 1), sized = sym_pick("sized", 0, 1); static const char* pre[] = {"", "namespace na { namespace nb {", "class Q {public: ", "struct Q {int m; struct R {"}, *post[] = {"", "}}", "};", "};};"}, *q[] = {"::", "::na::nb::", "::Q::", "::Q::R::"}; S src = pre[scope] + S(cls ? "enum class" : "enum") + " Ee" + (sized ? ": unsigned char" : "") + " {", nm[3]; 
  for (unsigned i = 0; i < n; i++) { nm[i] = ident("e", 1) + S("xyz").substr(i, 1); S c = any("c"); src += nm[i]; switch (sym_pick("value", 0, 7)) { case 0: break; case 1: src += "=-1"; break; case 2: src += " = f(1,2)"; break; case 3: sym_assume(c[0] != '\'' && c[0] != '\\' && c[0] != '\n'); src += " = '" + c + "'"; break; case 4: sym_assume(c[0] != '*' && c[0] != '/'); src += " /*" + c + ",}*/ "; break; case 5: src += "= sizeof(A<int[2]>) << 2"; break; case 6: src += " [[deprecated(\"},\")]]"; break; case 7: src += "= A<1>::x | int{3}"; break; } if (i + 1 < n || sym_pick("trailing", 0, 1)) src += ", "; }
  S o; CHECK(run_gen(src + "};" + post[scope] + " struct End {int m;};", "-nodef -typeName pk", o) == 0, "accepted"); S want, t = strip(q[scope]) + "Ee"; for (unsigned i = 0; i < n; i++) want += "{\"" + nm[i] + "\",int(" + (cls ? t : S(q[scope]).substr(0, S(q[scope]).size() - 2)) + "::" + nm[i] + ")}" + (i + 1 < n ? "," : ""); if (n) { S got = strip(after(o, "enum_keysData<", " {\n", "\n };")), g; for (size_t i = 0; i < got.size(); i++) if (got[i] != '\n') g += got[i]; CHECK(g == want, "each enumerator once, in order"); } else CHECK(o.find("enum_keysData< " + t + " >::keys(NULL,0)") != S::npos, "no enumerators");
  CHECK(strip(after(o, "inline std::string typeName< " + t + " >()", "{return \"", "\";}")) == t, "the enum's name"); std::vector<Desc> d = descs(o, "pk"); const Desc* z = find(d, "enum " + t); CHECK(z && z->ops.size() == 1 && z->ops[0] == "::pk(targ,desc+\"\",classdesc::enum_handle(arg));", "the enum is described by its symbols"); CHECK(find(d, "struct ::End"), "what follows is described"); } //@@ time=300 weight=3 fix:scope=0..3
// types omitted on request, and only those
ENTRY(omit) { S nm = "Z" + ident("z", 1), other = "Z" + ident("o", 1); bool same = other == nm; unsigned how = sym_pick("how", 0, 3), what = sym_pick("what", 0, 2); S t = what == 1 ? "na::" + nm : nm, ot = what == 1 ? "na::" + other : other; S line = "#pragma omit " + S(sym_pick("action", 0, 1) ? "pk" : "up") + " " + ot + "\n"; bool forpk = line.find(" pk ") != S::npos; S src = what == 1 ? "namespace na {struct " + nm + " {int m;};}" : what == 2 ? "template <class T, class U> class " + nm + " {int m;};" : "struct " + nm + " {int m;};"; src += " struct Yy {int m;};\n"; memio::disk.clear(); 
  switch (how) { case 0: src = line + src; break; case 1: src += line; break; case 2: memio::disk["./pk_base.h"] = "#include <x>\n\n" + line + "# pragma once\n/* */ // \n"; break; case 3: memio::disk["/inc/pk_base.h"] = line; memio::disk["./up_base.h"] = "#pragma omit up Yy"; break; }
  S o; CHECK(run_gen(src, "-nodef -I /inc pk up", o) == 0, "accepted"); memio::disk.clear(); S h = (what == 2 ? "class ::" + nm + "<T,U>" : "struct ::" + t); for (unsigned k = 0; k < 2; k++) { std::vector<Desc> d = descs(o, k ? "up" : "pk"); bool om = same && forpk == !k; CHECK((find(d, h) != 0) == !om, "omitted exactly if requested"); CHECK((find(d, "struct ::Yy") != 0) == !(k && how == 3), "others are described"); } } //@@ time=300 fix:how=0..3
// any bytes at all, within or at the end of input: a defined outcome
ENTRY(hostile) { static const char* pre[] = {"", "struct Z {int x", "class Z: A<", "template <", "enum Z {a", "typedef struct ", "namespace n {", "struct Z {Z(): x", "struct Z {template <class T> friend "}; static const char* post[] = {"", ";};\nstruct Y {int y;};\n"}; unsigned p = sym_pick("pre", 0, 8); S s = S(pre[p]) + sym_string("s", (TIER ? 3 : 2) - (p == 5)) + post[sym_pick("post", 0, 1)], o; run_gen(s, "-nodef pk", o); sym_reach("ends"); } //@@ time=300/1500 weight=4 fix:pre=0..8
// -overload: a pointer of the right signature for each overload
ENTRY(overloads) { bool tmpl = sym_pick("tmpl", 0, 1); S z = "Zed", full = tmpl ? "::na::Zed<T>" : "::na::Zed", src = "namespace na {", kind = tmpl ? "struct ::na::Zed<T> " : "struct ::na::Zed "; src += (tmpl ? "template <class T> struct Zed {" : "struct Zed {"); unsigned n = sym_pick("n", 1, 2); L decl, ops, types; S w = tmpl ? full : z; S fn[3]; unsigned cnt[3];
  for (unsigned i = 0; i < n; i++) { fn[i] = !i ? ident("f", 1) + "n" : sym_pick("same", 0, 1) ? fn[0] : S("gn"); cnt[i] = 1; for (unsigned j = 0; j < i; j++) if (fn[j] == fn[i]) cnt[i]++; static const char* rt[] = {"int", "const Zed&", "A<Zed>", "unsigned long", "void*", "N::B"}; static const char* at[] = {"", "int x", "Zed a, Zed b", "const Zedder& d, A<Zed, int(*)(Zed)> e", "int x=1'000, char c='}', int* y = f(1,2), A<B,C> d=A<B,C>{1,2}, const char* e=\"a,\\\"=\"", "int b[2], const char* const* p"}; 
    unsigned r = i && !TIER ? 1 : sym_pick(i ? "ret2" : "ret", 0, 5), a = i && !TIER ? 2 + 2 * sym_pick("args2", 0, 1) : sym_pick(i ? "args2" : "args", 0, 5), q = i && !TIER ? sym_pick("qual2", 1, 2) : sym_pick(i ? "qual2" : "qual", 0, 3); if (q == 2 && r == 1) r = 2; /* static functions returning const are described as constants */ S rs = rt[r], as = at[a], er = rs, ea = as; if (r == 1) er = "const" + S(tmpl ? "typename" : "") + w + "&"; if (r == 2) er = "A<" + w + ">"; if (r == 5) er = "typename" + rs; if (a == 2) ea = w + "a," + w + "b"; if (a == 3) ea = "constZedder&d,A<" + w + ",int(*)(" + w + ")>e"; if (a == 4) ea = "intx,charc,int*y,A<B,C>d,constchar*e"; if (r == 1 && tmpl) er = "consttypename" + w + "&";
    src += q == 2 ? "static " : q == 3 ? "virtual " : ""; src += rs + " " + fn[i] + "(" + as + ")" + (q == 1 ? " const" : q == 3 ? "=0" : "") + "; "; char num[2] = {char('0' + cnt[i]), 0}; S tmp = "TmpMemPtr_" + fn[i] + num; decl.push_back(q == 2 ? er + "(*" + tmp + ")(" + ea + ")=&" + full + "::" + fn[i] + ";" : er + "(" + full + "::*" + tmp + ")(" + ea + ")" + (q == 1 ? "const" : "") + "=&" + full + "::" + fn[i] + ";"); ops.push_back("::pk(targ,desc+\"." + fn[i] + "\"," + (q == 2 ? "" : "arg,") + tmp + ");"); types.push_back("::pk_type<_CD_TYPE," + kind + ">(targ,desc+\"." + fn[i] + "\"," + tmp + ");"); }
  src += "int m; };}"; ops.push_back("::pk(targ,desc+\".m\",arg.m);"); S o; CHECK(run_gen(src, "-nodef -overload pk", o) == 0, "accepted"); std::vector<Desc> d = descs(o, "pk"); const Desc* p = find(d, strip(kind).find("struct") == 0 ? kind.substr(0, kind.size() - 1) : kind); CHECK(p != 0, "the class is described"); L e = decl; e.insert(e.end(), ops.begin(), ops.end()); L g = nosp(p->ops), x = nosp(e), gt = nosp(p->types); CHECK(g == x, "each overload once, by its signature"); e = decl; e.insert(e.end(), types.begin(), types.end()); CHECK(gt == nosp(e), "and in the type's description"); } //@@ time=300 weight=4 fix:tmpl=0..1 fix:ret=0..5
