#ifndef VDUMP_H
#define VDUMP_H
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include "classdesc.h"
namespace classdesc_access { template <class T> struct access_dump; }
namespace vd {
  enum E { ea = 3, eb = 7 };
  struct In { int x; short y; };
  struct Base { int b; int meth(int) { return 0; } };
  struct Base2 { char c2; };
  class Priv { int hidden; friend struct classdesc_access::access_dump<Priv>; public: unsigned char open; Priv() : hidden(0), open(0) {} void set(int h) { hidden = h; } };
  struct Basic { int i; unsigned u; short s; unsigned short us; long l; unsigned long ul; long long ll; char c; bool q; std::string t; E e; };
  struct Derived : public Base, public Base2 { int own; void f() {} int g() const { return own; } static int h() { return 0; } static void k(int, double) {} In in; int last; };
  struct Arrays { int a[3]; short m[2][3]; In ai[2]; E ae[2]; std::string as[2]; int mark; };
  struct Seqs { std::vector<int> v; std::list<short> l; std::deque<In> d; std::vector<std::string> vs; std::vector<std::vector<int> > vv; std::set<int> st; int mark; };
  struct Maps { std::map<int, int> m; std::map<int, In> mi; std::map<std::string, int> ms; std::map<int, std::string> is; int mark; };
  struct Many { std::vector<In> v; std::vector<int> n; int r3[1][2][3], r4[2][1][1][3]; char r5[1][2][1][1][2]; std::vector<std::string> s; std::map<int, std::vector<int> > mv; int mark; };
  struct Ptrs { classdesc::shared_ptr<In> p, q; classdesc::shared_ptr<int> n; int mark; };
  struct Odd { static const int cs = 5; classdesc::Exclude<int> ex; Priv p; In in[1][2]; int mark; };
  template <class T> struct Temp { T t; std::vector<T> v; Temp() : t() {} };
  struct Deep { struct Inner { int a; In in; } inner; Temp<int> ti; Temp<In> tn; int mark; };
}
#endif
