#include "poly.h"
namespace vo {
  struct A: public classdesc::Object<A> { int x; A(int x=0): x(x) {} };
  struct B: public classdesc::Object<B,A> { int y; B(int x=0,int y=0): y(y) {this->x=x;} };
  struct C: public classdesc::Object<C> { short z; };
}
