#include <array>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <string>
namespace v17 {
  enum class Kind {a, b, c=2};
  enum class Small: unsigned char {x, y=100, z=200};
  enum class Wide: long long {lo, hi=0x100000000LL};
  struct In { int q=3; };
  struct R17 { Kind k; Small s; std::array<int,2> a; std::unordered_map<std::string,int> um; In in; long long bits; R17()=default; R17(const R17&)=default; virtual ~R17() {} auto foo() const -> int { return 1; } using alias=int; static constexpr int sc=7; };
}
