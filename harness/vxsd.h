#ifndef VXSD_H
#define VXSD_H
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include "classdesc.h"
#include "classdesc_access.h"
namespace classdesc_access { template <class T> struct access_xsd_generate; }
namespace vs {
  namespace inner { enum E { u, v = 9, w }; struct In { int x; E e; }; template <class A, class B = int> struct TT { A a; B b; TT() : a(), b() {} }; }
  template <class T> struct Temp { T t; std::vector<T> v; Temp() : t() {} };
  struct Basic { bool b; char c; signed char sc; unsigned char uc; short s; unsigned short us; int i; unsigned u; long l; unsigned long ul; long long ll; unsigned long long ull; float f; double d; std::string t; inner::E e; };
  struct Arrays { int a[3]; short m[2][3]; inner::In ai[2]; inner::E ae[2]; std::string as[2]; inner::TT<int> at[1]; std::vector<int> av[2]; char ac[2]; bool ab[1][1]; int a3[1][2][2]; short a4[1][1][2][2]; inner::E a5[1][2][1][1][2]; int mark; };
  struct Base { int b; }; struct Derived : public Base { int own; void f() {} static int g(int) { return 0; } inner::In in; int last; };
  struct Derived2 : public Derived { std::vector<Derived> vd; short n; };
  struct B3 { bool b3; }; struct Multi : public Derived, public B3 { int own; };
  struct Seqs { std::vector<int> v; std::list<std::string> vs; std::vector<inner::In> vi; std::vector<std::vector<int> > vv; std::set<inner::E> st; std::vector<bool> vb; std::vector<Arrays> va; std::deque<std::deque<inner::In> > dd; std::vector<Multi> vm; };
  struct Maps { std::map<int, int> m; std::map<std::string, inner::In> mi; std::map<inner::E, std::vector<inner::In> > me; std::pair<bool, inner::In> p; std::vector<std::pair<std::string, bool> > vp; std::map<int, std::map<int, inner::E> > mm; std::map<int, bool> ma[2]; };
  struct Priv { private: int hidden; CLASSDESC_ACCESS(Priv); friend struct classdesc_access::access_xsd_generate<Priv>; public: unsigned char open; Priv() : hidden(3), open('o') {} void set(int x) { hidden = x; } };
  struct Odd { static const int cs = 5; classdesc::Exclude<int> ex; Priv p; const int ci; int f(int) { return 1; } typedef int foo; struct N { foo q; } n[2]; int mark; Odd() : ci(3), mark(4) {} };
  struct Deep { struct Inner { int a; inner::In in; enum IE { p, q }; IE ie; } in; Temp<int> ti; Temp<inner::In> tn; Temp<std::string> ts; Temp<inner::E> te; Temp<inner::TT<int, bool> > tt; std::vector<inner::TT<short> > vt; int mark; };
  struct Str : public std::string { int n; };
  struct Vec : public std::vector<int> { int n; };
  struct Mem { Str s; Derived d; Vec v; std::list<Vec> lv; };
  struct Rec { int a; std::vector<Rec> kids; std::map<int, Rec> named; };
  struct Tree; struct Branch { std::vector<Tree> ts; int b; }; struct Tree { std::vector<Branch> bs; int t; };
  struct Empty {}; struct HasEmpty { Empty e; int a; std::vector<Empty> v; Empty ar[2]; }; struct Marked : public Empty { int m; };
  struct Ptrs { classdesc::shared_ptr<inner::In> p, q; classdesc::shared_ptr<int> n; int mark; inner::In after; };
}
#endif
