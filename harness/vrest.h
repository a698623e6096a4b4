#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <map>
#include <set>
namespace vr {
  enum Col {red, green = 5, blue};
  struct Pt { int x; int y; Pt(): x(0), y(0) {} Pt(int a, int b): x(a), y(b) {} int sum() const { return x * 10 + y; } int& rx() { return x; } void put(int a, int b) { x = a; y = b; } };
  struct Base { int inherited; Base(): inherited(1) {} int bget() const { return inherited; } };
  struct Attr: public Base { int before; int i; double d; bool b; std::string s; char ch; unsigned char u8; short sh; long long ll; Col c; const int ci; Pt p; static int si; int after;
    Attr(): before(11), i(0), d(0), b(false), ch('c'), u8(0), sh(0), ll(0), c(red), ci(7), after(12) {}
   private: int hidden; int hid() { return 1; } };
  struct HideBase { int x; std::string s; std::vector<int> v; int f() { return 1; } int g() { return 2; } HideBase(): x(1), s("b") {} };
  struct Hide: public HideBase { int x; std::string s; std::vector<int> v; int f() { return 3; } Hide(): x(2), s("d") {} };
  struct Seq { int before; std::vector<int> v; std::list<std::string> l; std::deque<int> q; std::vector<Pt> p; std::vector<std::vector<int> > vv; const std::vector<int> cv; int after; Seq(): before(11), cv(2, 6), after(12) {} };
  struct Maps { int before; std::map<int, int> m; std::map<std::string, Pt> p; std::set<int> s; std::map<std::string, std::vector<int> > mv; const std::map<int, int> cm; int after; Maps(): before(11), after(12) {} };
  struct Arrays { int before; int a[3]; Pt p[2]; int sq[2][2]; std::string s[2]; int after; Arrays(): before(11), a{1, 2, 3}, sq{{1, 2}, {3, 4}}, after(12) {} };
  struct Oblong { int aa[2][3]; Oblong(): aa{{1, 2, 3}, {4, 5, 6}} {} };
  struct Ptrs { int before; std::shared_ptr<Pt> s; std::unique_ptr<int> u; std::weak_ptr<Pt> w; std::vector<std::shared_ptr<Pt> > v; std::map<int, std::shared_ptr<Pt> > m; int after; Ptrs(): before(11), after(12) {} };
  struct Fns { int before; int i; Pt p; std::vector<Pt> v; std::map<std::string, Pt> m; mutable int calls; int after; Fns(): before(11), i(5), v(2), calls(0), after(12) {}
    void nothing() { calls++; } int sub(int q, int r) const { calls++; return q - r; } static int twice(int q) { return 2 * q; } long long three(int a, int b, int c) const { return a * 100LL + b * 10 + c; }
    int& ref() { return i; } int& pick(int a, int b) { calls = a * 10 + b; return i; } Pt& ptRef() { return p; } const Pt& ptConst() const { return p; } Pt ptVal() const { return p; } Pt mk(int a, int b) const { return Pt(a, b); } Pt& elem(int k) { return v[k & 1]; }
    std::vector<Pt> vec() const { return v; } std::map<std::string, Pt> maps() const { return m; } std::string cat(const std::string& a, int n) const { return a + std::string(n & 3, 'x'); } Col next(Col c) const { return c == red ? green : c == green ? blue : red; }
    int total(const std::vector<int>& q) const { int t = 0; for (unsigned k = 0; k < q.size(); k++) t += q[k]; return t; } int weigh(const Pt& q) const { return q.sum(); } double half(double q) const { return q / 2; } bool flip(bool q) const { return !q; } std::shared_ptr<Pt> shared() const { return std::make_shared<Pt>(3, 4); }
   private: int hid() { return 1; } };
  struct Over { int last; Over(): last(0) {}
    int f() { return last = 1; } int f(int) { return last = 2; } int f(const std::string&) { return last = 3; } int f(double) { return last = 4; } int f(bool) { return last = 5; } int f(int, int) { return last = 6; } int f(const std::string&, int) { return last = 7; } int f(int, const std::string&) { return last = 8; } int f(const Pt&) { return last = 9; } int f(int, int, int) { return last = 10; }
    int g(float) { return last = 1; } int g(double) { return last = 2; } int g(int) { return last = 3; }
    int h(const std::vector<int>&, int) { return last = 1; } int h(const std::vector<std::string>&, int) { return last = 2; } int h(const std::vector<double>&, int) { return last = 3; }
    int get() const { return last; } int get(const int& x) { return last = x; } };
  struct Made { int v; std::string s; Made(): v(1) {} Made(int a, const std::string& b): v(a), s(b) {} int get() const { return v; } };
  struct Root { Attr at; Seq sq; Maps mp; Arrays ar; Ptrs pt; Fns fn; Over ov; Root() {} };
}
