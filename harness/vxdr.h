#include "classdesc_access.h"
#include <string>
#include <vector>
#include <map>
namespace vx {
  enum Col {red, green=5, blue=-3};
  struct Base { short b; };
  class Priv { int secret; CLASSDESC_ACCESS(Priv); public: Priv(): secret(0) {} int get() const {return secret;} void set(int x) {secret=x;} };
  struct Rec: public Base { bool f; char c; unsigned char uc; unsigned short us; int i; unsigned u; long l; unsigned long ul; long long ll; unsigned long long ull; float fl; double d; Col e; int arr[2]; Priv p; };
  struct Cont { std::vector<short> v; std::string s; std::map<char,int> m; int mark; };
}
