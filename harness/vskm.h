#include <string>
namespace vk {
  struct In { int a; bool b; };
  struct Keyed { int before; classdesc::StringKeyMap<int> m; classdesc::StringKeyMap<In> p; classdesc::StringKeyMap<std::string> s; int after; };
}
