#include <deque>
#include <vector>
#include <list>
#include <map>
#include <set>
#include <string>
#include <string.h>
namespace vm {
  enum Which {w1=3, w2=1000, w3=100000, w4=-70000};
  struct Big { long pay[64]; };
  struct WithConst { int x; const int k; short y; classdesc::Exclude<int> hidden; static const int sk=4; WithConst(): k(42) {} };
  struct WithConstC { int x; const std::vector<int> cv; short y; const std::map<int,short> cm; const std::list<std::string> cl; const std::string cs; const std::set<char> ct; int z; const std::pair<short,int> cp; char last;
    WithConstC(unsigned n, int v): cv(n,v), cm(mk(n,v)), cl(n,std::string(n,'l')), cs(n,'s'), ct(st(n)), cp(v,v) {}
    static std::map<int,short> mk(unsigned n, int v) { std::map<int,short> m; for (unsigned i=0; i<n; i++) m[i]=v; return m; }
    static std::set<char> st(unsigned n) { std::set<char> s; for (unsigned i=0; i<n; i++) s.insert('a'+i); return s; } };
  struct Meth { int a; int one(int x) {return x+a;} int two(int x) {return x*2;} };
  struct Arr { short three[2][3][4]; char txt2[2][3]; std::vector<int> vs[2]; Which en[2]; };
}
