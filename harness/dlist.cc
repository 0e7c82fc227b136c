// IntrusiveDList: one (thorough: two) operations with arbitrary arguments from every pair of lists up to a size, i.e. the
// induction step over histories: the representation of a list is a function of its element sequence (checked after each step).
//@ entry h_dlist_op props=C01 shards=8 : every operation with every argument (elements, positions, ranges, counts up to 2^32-1, splice with an empty or non-empty second list, moves), links of the detached elements arbitrary, from every list of 0..6 (thorough 0..8) and second list of 0..3 (thorough 0..5) elements
//@ entry h_dlist_two props=C01 shards=8 : every two (thorough three) operations in sequence from lists of 0..2 elements
//@ entry h_dlist_iter props=C01 shards=2 : iteration both ways from begin, end, nth(any count), iterator_for, has_next / has_prev, apply with removal, const access, for lists of 0..4 (thorough 0..6) elements, with links in a sub-object and with rebound links
#include "vf.h"
#include "swoc/IntrusiveDList.h"
#include <utility>
using swoc::IntrusiveDList;
struct Node {
  uint64_t pre = 1;
  struct Links {
    Node *_next;
    Node *_prev;
    static Node *&next_ptr(Node *n) { return n->_l._next; }
    static Node *&prev_ptr(Node *n) { return n->_l._prev; }
  } _l;
};
using List = IntrusiveDList<Node::Links>;
static const unsigned MAXN = 18;
static Node *pool;
struct Seq {
  unsigned n = 0;
  Node *e[MAXN + 1];
  void ins(unsigned at, Node *v)
  {
    for (unsigned i = n; i > at; --i)
      e[i] = e[i - 1];
    e[at] = v;
    ++n;
  }
  void del(unsigned at)
  {
    for (unsigned i = at; i + 1 < n; ++i)
      e[i] = e[i + 1];
    --n;
  }
  Seq cut(unsigned from, unsigned to) // removes [from, to) and returns it
  {
    Seq r;
    for (unsigned i = from; i < to; ++i)
      r.e[r.n++] = e[i];
    for (unsigned i = to; i < n; ++i)
      e[from + (i - to)] = e[i];
    n -= to - from;
    return r;
  }
  void splice(unsigned at, Seq &s)
  {
    for (unsigned i = 0; i < s.n; ++i)
      ins(at + i, s.e[i]);
    s.n = 0;
  }
};
static void same(List &l, Seq const &s)
{
  CHECKM(l.count() == s.n, "count");
  CHECKM(l.empty() == (s.n == 0), "empty");
  CHECKM(l.head() == (s.n ? s.e[0] : nullptr), "head");
  CHECKM(l.tail() == (s.n ? s.e[s.n - 1] : nullptr), "tail");
  auto f = l.begin();
  for (unsigned i = 0; i < s.n; ++i, ++f) {
    CHECKM(f != l.end(), "forward traversal is complete");
    CHECKM(&*f == s.e[i], "forward traversal");
  }
  CHECKM(f == l.end(), "forward traversal ends");
  auto b = l.end();
  for (unsigned i = s.n; i > 0; --i) {
    --b;
    CHECKM(static_cast<Node *>(b) == s.e[i - 1], "backward traversal");
  }
  CHECKM(b == l.begin(), "backward traversal ends at the first element");
  if (s.n) {
    CHECKM(s.e[0]->_l._prev == nullptr, "nothing before the head");
    CHECKM(s.e[s.n - 1]->_l._next == nullptr, "nothing after the tail");
  }
}
static void unlinked(Node *v) { CHECKM(v->_l._next == nullptr && v->_l._prev == nullptr, "a removed element has no links"); }
static unsigned used;
static Node *fresh()
{ // not in a list, the links hold anything
  Node *v = pool + used++;
  v->_l._next = reinterpret_cast<Node *>(sym_u64("garbage"));
  v->_l._prev = reinterpret_cast<Node *>(sym_u64("garbage2"));
  return v;
}
static void make(List &l, Seq &s, unsigned n)
{
  for (unsigned i = 0; i < n; ++i) {
    Node *v = fresh();
    l.append(v);
    s.ins(s.n, v);
  }
}
static void step(List &l, Seq &s, List &o, Seq &t, unsigned op)
{
  List r;
  Seq x;
  switch (op) {
  case 0: {
    Node *v = fresh();
    CHECK(&l.append(v) == &l);
    s.ins(s.n, v);
    break;
  }
  case 1: {
    Node *v = fresh();
    CHECK(&l.prepend(v) == &l);
    s.ins(0, v);
    break;
  }
  case 2: { // after an element, or at the end iterator
    Node *v = fresh();
    unsigned at = sym_pick(s.n + 1, "at");
    if (at == s.n) {
      l.insert_after(l.end(), v);
      s.ins(s.n, v);
    } else {
      if (sym_pick(2, "iter"))
        l.insert_after(l.iterator_for(s.e[at]), v);
      else
        l.insert_after(s.e[at], v);
      s.ins(at + 1, v);
    }
    break;
  }
  case 3: {
    Node *v = fresh();
    unsigned at = sym_pick(s.n + 1, "at");
    if (at == s.n) {
      l.insert_before(l.end(), v);
      s.ins(s.n, v);
    } else {
      if (sym_pick(2, "iter"))
        l.insert_before(l.iterator_for(s.e[at]), v);
      else
        l.insert_before(s.e[at], v);
      s.ins(at, v);
    }
    break;
  }
  case 4: {
    if (!s.n)
      sym_stop();
    unsigned at = sym_pick(s.n, "at");
    Node *v = s.e[at];
    Node *nx = at + 1 < s.n ? s.e[at + 1] : nullptr;
    if (sym_pick(2, "iter")) {
      auto it = l.erase(l.iterator_for(v));
      CHECKM(nx ? &*it == nx : it == l.end(), "erase returns the next element");
      auto chk = it;
      if (s.n > 1) { // the iterator is usable to go back
        --chk;
        if (!nx)
          CHECKM(static_cast<Node *>(chk) == s.e[at - 1], "iterator from erase");
      }
    } else
      CHECKM(l.erase(v) == nx, "erase returns the next element");
    s.del(at);
    unlinked(v);
    break;
  }
  case 5: { // a range, possibly empty
    unsigned i = sym_pick(s.n + 1, "first");
    unsigned j = i + sym_pick(s.n + 1 - i, "len");
    auto a = i < s.n ? l.iterator_for(s.e[i]) : l.end();
    auto b = j < s.n ? l.iterator_for(s.e[j]) : l.end();
    auto it = l.erase(a, b);
    CHECKM(it == b, "erase of a range returns the limit");
    x = s.cut(i, j);
    for (unsigned k = 0; k < x.n; ++k)
      unlinked(x.e[k]);
    x.n = 0;
    if (s.n && j >= s.n + (j - i)) {
      --it;
      CHECKM(static_cast<Node *>(it) == s.e[s.n - 1], "iterator from erase");
    }
    break;
  }
  case 6: {
    Node *v = l.take_head();
    CHECK(v == (s.n ? s.e[0] : nullptr));
    if (s.n) {
      s.del(0);
      unlinked(v);
    }
    break;
  }
  case 7: {
    Node *v = l.take_tail();
    CHECK(v == (s.n ? s.e[s.n - 1] : nullptr));
    if (s.n) {
      s.del(s.n - 1);
      unlinked(v);
    }
    break;
  }
  case 8: {
    uint32_t n = sym_u32("n");
    r = l.take_prefix(n);
    x = s.cut(0, n < s.n ? n : s.n);
    break;
  }
  case 9: {
    uint32_t n = sym_u32("n");
    r = l.take_suffix(n);
    unsigned m = n < s.n ? n : s.n;
    x = s.cut(s.n - m, s.n);
    break;
  }
  case 10: {
    uint32_t n = sym_u32("n");
    r = l.split_prefix(n);
    if (n <= s.n)
      x = s.cut(0, n);
    break;
  }
  case 11: {
    uint32_t n = sym_u32("n");
    r = l.split_suffix(n);
    if (n <= s.n)
      x = s.cut(s.n - n, s.n);
    break;
  }
  case 12:
    CHECK(&l.append(o) == &l);
    s.splice(s.n, t);
    break;
  case 13:
    CHECK(&l.prepend(o) == &l);
    s.splice(0, t);
    break;
  case 14: {
    if (!s.n)
      sym_stop();
    unsigned at = sym_pick(s.n, "at");
    if (sym_pick(2, "iter"))
      l.insert_after(l.iterator_for(s.e[at]), o);
    else
      l.insert_after(s.e[at], o);
    s.splice(at + 1, t);
    break;
  }
  case 15: {
    if (!s.n)
      sym_stop();
    unsigned at = sym_pick(s.n, "at");
    if (sym_pick(2, "iter"))
      l.insert_before(l.iterator_for(s.e[at]), o);
    else
      l.insert_before(s.e[at], o);
    s.splice(at, t);
    break;
  }
  case 16: {
    List m{std::move(l)};
    CHECKM(l.empty() && l.count() == 0 && l.head() == nullptr && l.tail() == nullptr, "a moved from list is empty");
    same(m, s);
    l = std::move(m);
    CHECKM(m.empty() && m.count() == 0, "a moved from list is empty");
    break;
  }
  case 17:
    o = std::move(l); // the elements of o are dropped
    t = s;
    s.n = 0;
    break;
  case 18:
    CHECK(&l.clear() == &l);
    s.n = 0;
    break;
  case 19: {
    Node *v = fresh();
    for (unsigned i = 0; i < s.n; ++i)
      CHECK(l.contains(s.e[i]));
    CHECK(!l.contains(v));
    for (unsigned i = 0; i < t.n; ++i)
      CHECK(!l.contains(t.e[i]));
    break;
  }
  }
  same(r, x);
  same(l, s);
  same(o, t);
  if (x.n) { // put the taken part back so that it is exercised further
    o.append(r);
    t.splice(t.n, x);
    same(r, x);
    same(o, t);
  }
}
static const unsigned NOPS = 20;
HARNESS(h_dlist_op)
{
  Node p[MAXN];
  pool = p;
  used = 0;
  List l, o;
  Seq s, t;
  unsigned n = sym_split(BOUND(7, 9), "n");
  unsigned m = sym_split(BOUND(4, 6), "m");
  make(l, s, n);
  make(o, t, m);
  same(l, s);
  same(o, t);
  step(l, s, o, t, sym_split(NOPS, "op"));
  REACH("done");
}
HARNESS(h_dlist_two)
{
  Node p[MAXN];
  pool = p;
  used = 0;
  List l, o;
  Seq s, t;
  unsigned n = sym_split(3, "n");
  unsigned m = sym_split(3, "m");
  make(l, s, n);
  make(o, t, m);
  for (unsigned k = 0; k < BOUND(2, 3); ++k)
    step(l, s, o, t, k == 0 ? sym_split(NOPS, "op") : sym_pick(NOPS, "op"));
  REACH("done");
}
struct Base {
  Base *_n = nullptr;
  Base *_p = nullptr;
};
struct Derived : public Base {
  int v = 0;
};
struct BaseLinks {
  static Base *&next_ptr(Base *b) { return b->_n; }
  static Base *&prev_ptr(Base *b) { return b->_p; }
};
struct Plain {
  Plain *_next = nullptr;
  Plain *_prev = nullptr;
  int v = 0;
  using Linkage = swoc::IntrusiveLinkage<Plain>;
};
template <typename L, typename T> static void iterate(T *p)
{
  using DL = IntrusiveDList<L>;
  unsigned n = sym_pick(BOUND(5, 7), "n");
  DL l;
  DL const &c = l;
  for (unsigned i = 0; i < n; ++i) {
    p[i].v = i;
    l.append(p + i);
  }
  CHECK(c.count() == n);
  CHECK(c.head() == (n ? p : nullptr) && c.tail() == (n ? p + n - 1 : nullptr));
  unsigned i = 0;
  for (auto &x : l)
    CHECK(&x == p + i++);
  CHECK(i == n);
  i = 0;
  for (auto const &x : c)
    CHECK(&x == p + i++);
  CHECK(i == n);
  i = 0;
  for (auto it = c.begin(); it != c.end();) {
    CHECK(it.has_next());
    CHECK(it.has_predecessor() == (i > 0));
    CHECK(it.has_prev() == (i > 0));
    CHECK(it.has_successor() == (i + 1 < n));
    CHECK(it->v == int(i));
    auto old = it++;
    CHECK(old->v == int(i));
    ++i;
  }
  auto e = l.end();
  CHECK(!e.has_next() && e.has_prev() == (n > 0) && e.has_predecessor() == (n > 0) && !e.has_successor());
  for (i = n; i > 0; --i) {
    auto old = e--;
    CHECK(i == n ? old == l.end() : &*old == p + i);
    CHECK(e->v == int(i - 1));
  }
  uint32_t k = sym_u32("k");
  auto nth = l.nth(k);
  T *np = nth;
  CHECK(k < n ? np == p + k : np == nullptr);
  if (n) {
    unsigned at = sym_pick(n, "at");
    CHECK(c.iterator_for(p + at) == l.iterator_for(p + at));
    CHECK(&*l.iterator_for(p + at) == p + at);
    // apply visits each element once even if it is removed
    unsigned mask = sym_pick(1u << n, "mask"), seen = 0;
    if (sym_pick(2, "ref"))
      l.apply([&](T &x) {
        CHECK(&x == p + seen);
        ++seen;
        if (mask >> x.v & 1)
          l.erase(&x);
      });
    else
      l.apply([&](T *x) {
        CHECK(x == p + seen);
        ++seen;
        if (mask >> x->v & 1) {
          l.erase(x);
          x->v = -1;
        }
      });
    CHECK(seen == n);
    auto it = l.begin();
    unsigned left = 0;
    for (i = 0; i < n; ++i)
      if (!(mask >> i & 1)) {
        CHECK(it != l.end() && &*it == p + i);
        ++it;
        ++left;
      }
    CHECK(it == l.end() && l.count() == left);
  }
  REACH("done");
}
HARNESS(h_dlist_iter)
{
  if (sym_split(2, "kind")) {
    Derived d[6];
    iterate<swoc::IntrusiveLinkageRebind<Derived, BaseLinks>, Derived>(d);
  } else {
    Plain d[6];
    iterate<Plain::Linkage, Plain>(d);
  }
}
