#include <map>
#include <set>
#include <string>
#include <vector>
#include <list>
#include <deque>
namespace vr {
  enum Sparse {s0=-4, s1, s2=100, s3=7};
  enum Two {first, second};
  struct Base { int b; };
  struct Inner { short q; Two t; };
  struct All: public Base {
    int a; int arr[3]; int m[2][3]; char txt[4]; Inner in; Inner ins[2];
    const int k; static const int sk=3; classdesc::Exclude<int> ex; int* p; Sparse e;
    All(): k(4), p(0) {}
  private:
    CLASSDESC_ACCESS(All);
    int hid;
  public:
    void poison() { int neg=-1; b=a=hid=neg; for (int i=0; i<3; ++i) {arr[i]=neg; m[0][i]=m[1][i]=neg;} for (int i=0; i<4; ++i) txt[i]=1; in.q=ins[0].q=ins[1].q=-1; in.t=ins[0].t=ins[1].t=(Two)9; ex=77; e=(Sparse)50; }
    int hidden() const {return hid;}
  };
  struct Norm { int x, y; };
  struct Holder { Norm n[2]; std::vector<Norm> v; };
}
