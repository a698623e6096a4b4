#include "classdesc_access.h"
#include <string>
#include <vector>
#include <list>
#include <map>
#include <set>
namespace vx {
  enum Col {red, green=5, blue=-3};
  struct In { short a; bool b; };
  struct Base { long base1; };
  class Priv { int hidden; CLASSDESC_ACCESS(Priv); public: int shown; Priv(): hidden(7), shown(0) {} int get() const {return hidden;} };
  struct Rec: public Base { int i; unsigned u; short s; unsigned short us; long l; unsigned long ul; bool b; Col e; In in; int arr[2]; In ia[2]; Priv p; };
  struct Text { std::string s, t; char c; int after; };
  struct Cont { std::vector<int> v; std::vector<std::string> vs; std::list<In> li; std::set<int> st; std::map<int,short> m; std::vector<std::vector<short> > vv; int mark; };
}
