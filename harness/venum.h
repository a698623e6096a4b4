#include "classdesc_access.h"
namespace ve {
  const int K=3;
  enum Plain {p0, p1, p2};
  enum Vals {va=-5, vb, vc=1<<4, vd=va+2, ve_=K*2, vf='c', vg=int(sizeof(std::pair<char,char>)), vh=int(sizeof(char[3])), vi=','};
  enum Trail {t0, t1,};
  enum One {only=-2147483647-1};
  enum Alias {first=1, second=1, third};
  enum Empty {};
  enum /* a, b */ Comm { c0 /* x, y=3 */, c1=4 // p, q
    , c2 };
  class Host {
    CLASSDESC_ACCESS(Host);
  public:
    enum Inner {i0, i1=3} in1, in2;
    int mark;
    enum Inner in3;
  private:
    enum Inner pr; Inner pr2; int last;
  public:
    void setp(bool b, int l) {pr=b? i1: i0; pr2=b? i0: i1; last=l;}
    bool same(const Host& o) const {return pr==o.pr && pr2==o.pr2 && last==o.last;}
  };
}
enum Global {ga=10, gb=-10};
