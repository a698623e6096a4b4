// Types used by the serialisation harnesses; their descriptors are generated by the classdesc
// program built from the tree under test.
#include "classdesc_access.h"
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
namespace vt {
  enum Colour {red, green=5, blue=-3};
  struct Inner { short a; unsigned char b; bool c; };
  struct Base { long base1; char cb; };
  struct Second { unsigned u2; };
  class Priv { int secret; CLASSDESC_ACCESS(Priv); public: int shown; Priv(): secret(0), shown(0) {} int get() const {return secret;} void set(int x) {secret=x;} };
  struct Fund {
    bool b; char c; signed char sc; unsigned char uc; short s; unsigned short us; int i; unsigned int ui;
    long l; unsigned long ul; long long ll; unsigned long long ull; float f; double d; wchar_t w;
  };
  struct Rec: public Base, public Second {
    int x; Colour col; Inner in; int arr[3]; short m2[2][2]; char txt[4]; Inner ia[2]; Priv p;
    int method(int y) { return y; }
    static int smethod(int y) { return y; }
    typedef int alias;
    alias z;
  };
  struct Cont { std::vector<int> v; std::string s; std::map<int,short> m; std::set<unsigned char> st; std::list<Inner> l; std::deque<short> dq; std::pair<int,char> pr; std::vector<std::string> vs; std::vector<bool> vb; std::multimap<char,char> mm; std::multiset<char> ms; };
  template <class T> struct Tmpl { T val; int n; };
  struct Outer { struct Nested { int q; }; Nested n; enum E {e0,e1}; E e; Tmpl<Inner> t; };
}
