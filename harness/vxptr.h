#include "polyBase.h"
#include "polyXMLBase.h"
#include "ref.h"
#include <string>
#include <vector>
#include <memory>
namespace vq {
  struct Plain { int v; std::string s; };
  struct shape: public classdesc::PolyBase<int>, virtual public classdesc::PolyXMLBase { static shape* create(int); };
  template <class T, int t> struct Shape: public classdesc::Poly<T, shape>, public classdesc::PolyXML<T> { int type() const {return t;} };
  struct circle_b { int r; circle_b(): r(0) {} };
  struct circle: public circle_b, public Shape<circle, 1> {};
  struct square_b: public circle_b { std::string name; };
  struct square: public square_b, public Shape<square, 7> {};
  struct Holder { int before; classdesc::shared_ptr<Plain> p; classdesc::shared_ptr<int> i; classdesc::shared_ptr<shape> q; int after; Holder(): before(0), after(0) {} };
  struct Refs { classdesc::ref<Plain> p; classdesc::ref<std::string> i; int after; };
  struct Vecs { std::vector<classdesc::shared_ptr<Plain> > p; std::vector<classdesc::shared_ptr<shape> > q; };
}
