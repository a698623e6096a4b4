#include <memory>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <unordered_map>
#include <functional>
#include <tuple>
namespace vj {
  enum class Scoped {sa, sb = 9}; enum Small: unsigned char {x0, x200 = 200};
  struct Plain { int v; std::string s; };
  struct Uniq { int before; std::unique_ptr<Plain> p; std::unique_ptr<int> i; std::shared_ptr<std::string> s; int after; Uniq(): before(0), after(0) {} };
  struct Tup { int before; std::tuple<int, std::string, Plain, bool> t; std::tuple<short> one; int after; };
  struct Arr { std::array<int, 3> a; std::array<Plain, 2> p; std::array<std::array<bool, 2>, 2> b; std::array<int, 2> ca[2]; Scoped e; Small f; Scoped ea[2]; std::unordered_map<int, int> m; int after; };
  struct Func { int before; std::function<int(int)> f; int after; };
  struct Keyed { int before; classdesc::StringKeyMap<int> m; classdesc::StringKeyMap<Plain> p; classdesc::StringKeyMap<std::vector<int>> v; int after; };
  struct Any { int before; classdesc::json_pack_t j; int after; };
}
