#include "classdesc_access.h"
namespace ve {
  constexpr int mx(int a, int b) {return a<b? b: a;}
  enum class Scoped {sa, sb=9, sc=mx(4,12), sd};
  enum class Small: unsigned char {x0, x1, x200=200};
  enum struct Str {q0=2, q1};
  enum Wide: long long {w0, wneg=-70000};
  enum class Br {b0=int{4}, b1};
  struct Holder { Scoped s; Small m; enum class Deep: short {d0, d1=-4} d; enum Old {o0, o1=3}; Old o; int mark; };
}
