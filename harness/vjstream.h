#include <iostream>
namespace vq {
  // has no descriptor, only streaming operators
  struct Date { int y; char m; Date(): y(0), m('a') {} };
  inline std::ostream& operator<<(std::ostream& o, const Date& d) { return o << d.y << '/' << d.m; }
  inline std::istream& operator>>(std::istream& i, Date& d) { char c; return i >> d.y >> c >> d.m; }
}
