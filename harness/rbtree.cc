// Red-black tree: order, parent links, colours, black height and derived (augmented) node data after any insertion / removal.
//@ entry h_rb_seq props=C07 shards=64 time=600 : every insertion order of 6 (thorough 7) distinct keys found by key comparison, then 3 (thorough 4) removals of arbitrary nodes
//@ entry h_rb_insert props=C07 shards=64 time=600 : one insertion at every position of every red-black tree of up to 14 (thorough 17) nodes
//@ entry h_rb_remove props=C07 shards=64 time=600 : one removal of every node of every red-black tree of up to 14 (thorough 17) nodes
//@ entry h_rb_mixed props=C07 shards=64 time=600 : every red-black tree of up to 7 (thorough 8) nodes, then a removal, an insertion and another removal at arbitrary positions
//@ srcs: RBTree
#include "vf.h"
#include "swoc/RBTree.h"
using swoc::detail::RBNode;
using Color = RBNode::Color;
using Dir = RBNode::Direction;
struct Node : public RBNode {
  unsigned key = 0;
  unsigned size = 1;     // derived data: number of nodes of the subtree
  unsigned low = 0;      // derived data: least key of the subtree
  bool in_tree = false;
  Node *left() { return static_cast<Node *>(_left); }
  Node *right() { return static_cast<Node *>(_right); }
  void structure_fixup() override
  {
    size = 1 + (_left ? left()->size : 0) + (_right ? right()->size : 0);
    low = _left ? left()->low : key;
  }
};
static bool g_ok;
static unsigned g_count;
static Node *g_last;
static void note(bool f) { g_ok = all(g_ok, f); }
// Walk in order, gives the black height. Structure is concrete, keys may be symbolic.
static unsigned walk(Node *n, unsigned depth)
{
  CHECKM(depth < 12, "the tree is not that deep");
  CHECKM(++g_count < 40, "no node is reached twice");
  CHECKM(n->in_tree, "no removed node is reached");
  unsigned lh = 0, rh = 0;
  bool red = n->color() == Color::RED;
  unsigned size = 1;
  unsigned low = n->key;
  unsigned before = g_count;
  if (n->_left) {
    CHECKM(n->_left->_parent == n, "parent link of the left child");
    CHECKM(!(red && n->_left->color() == Color::RED), "no red node has a red child");
    CHECK(n->direction_of(n->_left) == Dir::LEFT && n->child_at(Dir::LEFT) == n->_left);
    lh = walk(n->left(), depth + 1);
    size += n->left()->size;
    low = n->left()->low;
  }
  if (g_last)
    note(g_last->key < n->key);
  g_last = n;
  if (n->_right) {
    CHECKM(n->_right->_parent == n, "parent link of the right child");
    CHECKM(!(red && n->_right->color() == Color::RED), "no red node has a red child");
    CHECK(n->direction_of(n->_right) == Dir::RIGHT && n->child_at(Dir::RIGHT) == n->_right);
    rh = walk(n->right(), depth + 1);
    size += n->right()->size;
  }
  CHECKM(lh == rh, "same number of black nodes on every path");
  CHECKM(n->size == size, "derived data is up to date (subtree size)");
  note(n->low == low);
  (void)before;
  return lh + !red;
}
static void verify(RBNode *root, unsigned n)
{
  g_ok = true;
  g_count = 0;
  g_last = nullptr;
  if (n == 0) {
    CHECKM(root == nullptr, "empty tree");
    return;
  }
  CHECKM(root != nullptr, "not empty");
  CHECKM(root->_parent == nullptr, "the root has no parent");
  CHECKM(root->color() == Color::BLACK, "the root is black");
  walk(static_cast<Node *>(root), 0);
  CHECKM(g_count == n, "exactly the inserted nodes are in the tree");
  CHECKM(g_ok, "in order, derived data is up to date");
  RBNode *l = root->left_most_descendant();
  CHECKM(l->_left == nullptr, "left most");
}
static RBNode *insert_key(RBNode *root, Node *x)
{
  x->in_tree = true;
  x->_left = x->_right = x->_parent = nullptr;
  x->_color = Color::RED;
  if (!root)
    return x->rebalance_after_insert();
  Node *n = static_cast<Node *>(root);
  for (;;) {
    if (x->key < n->key) {
      if (!n->_left) {
        CHECK(n->set_child(x, Dir::LEFT) == x);
        break;
      }
      n = n->left();
    } else {
      if (!n->_right) {
        CHECK(n->set_child(x, Dir::RIGHT) == x);
        break;
      }
      n = n->right();
    }
  }
  return x->rebalance_after_insert();
}
HARNESS(h_rb_seq)
{
  static const unsigned N = BOUND(6, 7), R = BOUND(3, 4);
  Node node[N];
  RBNode *root = nullptr;
  // the relative order of the keys, one after the other
  unsigned pos = 0;
  for (unsigned i = 0; i < N; ++i) {
    unsigned k = sym_u8("key");
    node[i].key = k;
    for (unsigned j = 0; j < i; ++j)
      ASSUME(k != node[j].key);
    root = insert_key(root, node + i);
  }
  verify(root, N);
  bool gone[N] = {};
  for (unsigned i = 0; i < R; ++i) {
    unsigned idx = sym_split(N - i, "victim");
    for (pos = 0;; ++pos) {
      if (!gone[pos] && idx-- == 0)
        break;
    }
    gone[pos] = true;
    root = node[pos].remove();
    node[pos].in_tree = false;
    verify(root, N - 1 - i);
  }
  REACH("done");
}
// --- every valid tree: choose the structure top down with the number of nodes and the black height
static Node g_node[24];
static unsigned g_used;
static unsigned min_nodes(unsigned bh, bool) { return (1u << bh) - 1; }
static unsigned max_nodes(unsigned bh, bool red_ok) { return red_ok ? (1u << (2 * bh + 1)) - 1 : (bh ? 1 + 2 * ((1u << (2 * (bh - 1) + 1)) - 1) : 0); }
// A tree of n nodes and black height bh (of black nodes, this one included), keys not set yet.
static Node *make_tree(unsigned n, unsigned bh, bool red_ok)
{
  if (n == 0)
    return nullptr;
  // possible: black with subtrees of height bh - 1 (root may be red), or red with subtrees of height bh that are black
  struct {
    bool red;
    unsigned l;
  } opt[40];
  unsigned k = 0;
  for (unsigned red = 0; red < 2; ++red) {
    if (red && !red_ok)
      continue;
    if (!red && bh == 0)
      continue;
    unsigned h = red ? bh : bh - 1;
    for (unsigned l = 0; l < n; ++l) {
      unsigned r = n - 1 - l;
      if (l < min_nodes(h, !red) || l > max_nodes(h, !red) || r < min_nodes(h, !red) || r > max_nodes(h, !red))
        continue;
      opt[k].red = red;
      opt[k].l = l;
      ++k;
    }
  }
  if (k == 0) {
    ASSUME(false);
    return nullptr;
  }
  unsigned c = k > 1 ? sym_split(k, "shape") : 0;
  Node *x = g_node + g_used++;
  x->in_tree = true;
  x->_color = opt[c].red ? Color::RED : Color::BLACK;
  x->_parent = nullptr;
  unsigned h = opt[c].red ? bh : bh - 1;
  x->set_child(make_tree(opt[c].l, h, !opt[c].red), Dir::LEFT);
  x->set_child(make_tree(n - 1 - opt[c].l, h, !opt[c].red), Dir::RIGHT);
  return x;
}
static unsigned number(Node *n, unsigned k, Node **order)
{
  if (n->_left)
    k = number(n->left(), k, order);
  order[k] = n;
  n->key = 2 * ++k;
  if (n->_right)
    k = number(n->right(), k, order);
  n->structure_fixup();
  return k;
}
static Node *any_tree(unsigned n, Node **order)
{
  g_used = 0;
  unsigned hmin = 0;
  while (max_nodes(hmin, false) < n)
    ++hmin;
  unsigned hmax = hmin;
  while (min_nodes(hmax + 1, false) <= n)
    ++hmax;
  unsigned bh = hmin + (hmax > hmin ? sym_split(hmax - hmin + 1, "height") : 0);
  Node *root = make_tree(n, bh, false);
  if (root)
    number(root, 0, order);
  return root;
}
HARNESS(h_rb_insert)
{
  unsigned n = sym_split(BOUND(15, 18), "n");
  Node *order[24];
  RBNode *root = any_tree(n, order);
  verify(root, n);
  Node x;
  unsigned key = sym_u8("key"); // any gap between the nodes
  ASSUME(all(key & 1, key <= 2 * n + 1));
  x.key = key;
  root = insert_key(root, &x);
  verify(root, n + 1);
  REACH("done");
}
HARNESS(h_rb_remove)
{
  unsigned n = 1 + sym_split(BOUND(14, 17), "n");
  Node *order[24];
  RBNode *root = any_tree(n, order);
  unsigned key = sym_u8("key"); // any of the nodes
  ASSUME(all(!(key & 1), key >= 2, key <= 2 * n));
  Node *v = static_cast<Node *>(root);
  while (v && v->key != key)
    v = key < v->key ? v->left() : v->right();
  CHECK(v != nullptr);
  root = v->remove();
  v->in_tree = false;
  verify(root, n - 1);
  REACH("done");
}
HARNESS(h_rb_mixed)
{
  unsigned n = 1 + sym_split(BOUND(7, 8), "n");
  Node *order[24];
  RBNode *root = any_tree(n, order);
  unsigned k = sym_split(n, "pos");
  root = order[k]->remove();
  order[k]->in_tree = false;
  // the removed node goes in again elsewhere, and another one is removed
  order[k]->key = 1 + 2 * sym_split(n + 1, "again");
  if (root)
    order[k]->structure_fixup();
  root = insert_key(root, order[k]);
  verify(root, n);
  unsigned m = sym_split(n, "next");
  root = order[m]->remove();
  order[m]->in_tree = false;
  verify(root, n - 1);
  REACH("done");
}
