#include "ref.h"
namespace vg {
  struct Node { int id; Node* a; Node* b; };
  struct TNode { int id; TNode* l; TNode* r; };
#ifdef _CLASSDESC
#pragma graphnode vg::PNode
#pragma treenode vg::QNode
#endif
  struct PNode { int id; PNode* a; };
  struct QNode { int id; QNode* l; };
  struct RNode { int id; classdesc::ref<RNode> a, b; };
  struct Holder { int x; Node* n; Node* m; int y; };
}
