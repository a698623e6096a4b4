#include "polyBase.h"
#include "polyPackBase.h"
#include "factory.h"
#include <string>
#include <vector>
namespace vp {
  struct Plain { int v; short w; };
  struct shape: public classdesc::PolyBase<int>, virtual public classdesc::PolyPackBase
  { static shape* create(int); };
  template <class T, int t> struct Shape: public classdesc::Poly<T,shape>, public classdesc::PolyPack<T> { int type() const {return t;} };
  struct circle_b { int r; };
  struct circle: public circle_b, public Shape<circle,1> {};
  struct square_b: public circle_b { long side; std::string name; };
  struct square: public square_b, public Shape<square,7> {};
  struct leaf: public Shape<leaf,-3> {};
}
