#include <memory>
#include <string>
#include <vector>
#include <tuple>
namespace vq {
  struct Plain { int v; std::string s; };
  struct U { int before; std::unique_ptr<Plain> p; std::unique_ptr<int> i; std::shared_ptr<std::string> s; int after; U(): before(0), after(0) {} };
  struct Tup { std::tuple<int, std::string, Plain, int, bool> t; std::tuple<short, short> same; std::tuple<std::vector<int>, std::vector<short>, int> v; int after; };
  struct Arr { std::vector<int> av[2]; std::string as[2]; };
}
