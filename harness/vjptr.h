#include "polyBase.h"
#include "polyJsonBase.h"
#include <string>
#include <vector>
#include <map>
#include "vjstream.h"
namespace vq {
  struct Plain { int v; std::string s; };
  struct shape: public classdesc::PolyBase<int>, virtual public classdesc::PolyJsonBase { static shape* create(int); };
  template <class T, int t> struct Shape: public classdesc::Poly<T, shape>, public classdesc::PolyJson<T> { int type() const {return t;} };
  struct circle_b { int r; circle_b(): r(0) {} };
  struct circle: public circle_b, public Shape<circle, 1> {};
  struct square_b: public circle_b { std::string name; };
  struct square: public square_b, public Shape<square, 7> {};
  struct Holder { int before; classdesc::shared_ptr<Plain> p; classdesc::shared_ptr<int> i; classdesc::shared_ptr<shape> q; int after; Holder(): before(0), after(0) {} };
  struct Dated { int a; Date d; std::vector<Date> v; std::map<int, Date> m; int b; Dated(): a(0), b(0) {} };
  struct Vecs { std::vector<classdesc::shared_ptr<Plain> > p; std::vector<classdesc::shared_ptr<shape> > q; std::map<int, classdesc::shared_ptr<shape> > m; std::vector<std::vector<bool> > b; };
}
