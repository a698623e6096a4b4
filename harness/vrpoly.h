#include <string>
#include <vector>
#include <map>
#include <memory>
#include <classdesc.h>
#include <polyRESTProcess.h>
namespace vrp {
  struct A: public classdesc::PolyRESTProcess<A> { int a = 1; int one() const { return a + 1; } virtual int kind() { return 0; } };
  struct B: public classdesc::PolyRESTProcess<B, A> { int b = 2; std::string s = "old"; int add(int x) { return b += x; } int kind() override { return 1; } };
  struct Holder { int before = 11; std::shared_ptr<A> p; std::unique_ptr<A> u; std::weak_ptr<A> w; std::vector<std::shared_ptr<A>> v; std::map<int, std::shared_ptr<A>> m; int after = 12; };
}
