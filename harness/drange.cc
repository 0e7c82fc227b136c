// DiscreteRange against sets of points: a range is the set { p : contains(p) }, p arbitrary.
//@ entry h_range_pred props=C04 shards=4 : all pairs of ranges over uint8_t, int16_t, uint64_t and IP4Addr with arbitrary end points, also empty ones, and an arbitrary third point
//@ entry h_range_algebra props=C04 shards=4 : intersection, hull, clip, assignment for the same pairs, compared at an arbitrary point
//@ entry h_range_order props=C04 shards=4 : equality, lexicographic order (three ranges), subset operators, relationship, left edge relationship
#include "vf.h"
#include "swoc/DiscreteRange.h"
#include "swoc/swoc_ip.h"
#include <limits>
using swoc::DiscreteRange;
template <typename T> T sym(const char *n);
template <> uint8_t sym(const char *n) { return sym_u8(n); }
template <> int16_t sym(const char *n) { return sym_u16(n); }
template <> uint64_t sym(const char *n) { return sym_u64(n); }
template <> swoc::IP4Addr sym(const char *n) { return swoc::IP4Addr(in_addr_t(sym_u32(n))); }
template <typename T> T lo() { return std::numeric_limits<T>::min(); }
template <typename T> T hi() { return std::numeric_limits<T>::max(); }
template <> swoc::IP4Addr lo() { return swoc::IP4Addr(in_addr_t(0)); }
template <> swoc::IP4Addr hi() { return swoc::IP4Addr(in_addr_t(0xFFFFFFFF)); }
// A range as the specification sees it: two end points.
template <typename T> struct R {
  T a, b;
  bool empty() const { return b < a; }
  bool has(T const &p) const { return all(!(p < a), !(b < p)); }
  DiscreteRange<T> get() const { return {a, b}; }
};
template <typename T> bool eq(T const &a, T const &b) { return all(!(a < b), !(b < a)); }
template <typename T> bool meet(R<T> const &x, R<T> const &y)
{ // a common point: the larger of the minima
  return any(all(y.has(x.a), !x.empty()), all(x.has(y.a), !y.empty()));
}
template <typename T> bool sub(R<T> const &x, R<T> const &y) { return any(x.empty(), all(!(x.a < y.a), !(y.b < x.b))); }
template <typename T> bool left_adj(R<T> const &x, R<T> const &y) // both not empty: y starts right after x
{
  T n{x.b};
  ++n;
  return all(x.b < y.a, eq(n, y.a));
}
template <typename T> bool adj(R<T> const &x, R<T> const &y) { return any(left_adj(x, y), left_adj(y, x)); }
template <typename T> static R<T> any_range(const char *a, const char *b, bool canonical)
{ // canonical: not empty, or the default constructed empty range
  R<T> r{sym<T>(a), sym<T>(b)};
  if (canonical)
    ASSUME(any(!r.empty(), all(eq(r.a, hi<T>()), eq(r.b, lo<T>()))));
  return r;
}
template <typename T> static void pred()
{
  auto x = any_range<T>("xa", "xb", true), y = any_range<T>("ya", "yb", true);
  T p = sym<T>("p");
  auto const dx = x.get(), dy = y.get();
  bool e = dx.empty();
  CHECK(e == x.empty());
  CHECK(!dx == x.empty());
  CHECK(bool(dx) == !x.empty());
  bool c = dx.contains(p);
  CHECK(c == x.has(p));
  CHECK(eq(dx.min(), x.a) && eq(dx.max(), x.b));
  bool s = dx.is_singleton();
  CHECK(implies(!x.empty(), s == eq(x.a, x.b)));
  bool m = dx.is_maximal();
  CHECK(m == all(eq(x.a, lo<T>()), eq(x.b, hi<T>())));
  bool i = dx.has_intersection_with(dy);
  CHECK(i == meet(x, y));
  bool sup = dx.is_superset_of(dy);
  CHECK(sup == sub(y, x));
  bool subs = dx.is_subset_of(dy);
  CHECK(subs == sub(x, y));
  bool ss = dx.is_strict_superset_of(dy);
  CHECK(ss == all(sub(y, x), !sub(x, y)));
  bool st = dx.is_strict_subset_of(dy);
  CHECK(st == all(sub(x, y), !sub(y, x)));
  if (!x.empty() && !y.empty()) {
    bool la = dx.is_left_adjacent_to(dy);
    CHECK(la == left_adj(x, y));
    bool ad = dx.is_adjacent_to(dy);
    CHECK(ad == adj(x, y));
    bool u = dx.has_union(dy); // no gap between them
    CHECK(u == any(meet(x, y), adj(x, y)));
  } else {
    CHECK(!dx.is_adjacent_to(dy) || y.empty() || x.empty());
  }
  REACH("done");
}
template <typename T> static void algebra()
{
  auto x = any_range<T>("xa", "xb", false), y = any_range<T>("ya", "yb", false);
  T p = sym<T>("p");
  auto const dx = x.get(), dy = y.get();
  auto n = dx.intersection(dy);
  CHECK(n.contains(p) == all(x.has(p), y.has(p)));
  CHECK(n.empty() == !meet(x, y));
  CHECK(dx.has_intersection_with(dy) == meet(x, y));
  auto m = dx;
  auto &r = m &= dy;
  CHECK(&r == &m);
  CHECK(m.contains(p) == all(x.has(p), y.has(p)));
  // the hull is the smallest range covering both
  auto h = dx.hull(dy);
  bool left = any(x.has(p), y.has(p));
  CHECK(implies(left, h.contains(p)));
  CHECK(h.empty() == all(x.empty(), y.empty()));
  T ha = h.min(), hb = h.max();
  CHECK(implies(!h.empty(), all(any(x.has(ha), y.has(ha)), any(x.has(hb), y.has(hb)))));
  auto g = dx;
  auto &gr = g |= dy;
  CHECK(&gr == &g);
  CHECK(g.contains(p) == h.contains(p));
  // modification
  DiscreteRange<T> d;
  CHECK(d.empty());
  CHECK(!d.contains(p));
  d.assign(p);
  CHECK(d.is_singleton() && d.contains(p));
  d.assign(x.a, x.b);
  CHECK(d == dx);
  d.assign_min(y.a);
  CHECK(eq(d.min(), y.a) && eq(d.max(), x.b));
  d.assign_max(y.b);
  CHECK(d == dy);
  if (!eq(y.b, lo<T>())) {
    d.clip_max();
    T z = sym<T>("z");
    CHECK(d.contains(z) == all(y.has(z), !eq(z, y.b)));
  }
  d.clear();
  CHECK(d.empty() && !d.contains(p));
  CHECK(DiscreteRange<T>(p).contains(p) && DiscreteRange<T>(p).is_singleton());
  REACH("done");
}
template <typename T> static void order()
{
  using D = DiscreteRange<T>;
  auto x = any_range<T>("xa", "xb", true), y = any_range<T>("ya", "yb", true);
  auto const dx = x.get(), dy = y.get();
  bool same = all(eq(x.a, y.a), eq(x.b, y.b));
  CHECK((dx == dy) == same);
  CHECK((dx != dy) == !same);
  CHECK((dx < dy) == all(sub(x, y), !sub(y, x)));
  CHECK((dx <= dy) == sub(x, y));
  CHECK((dx > dy) == all(sub(y, x), !sub(x, y)));
  CHECK((dx >= dy) == sub(y, x));
  typename D::lexicographic_order lt;
  bool l = lt(dx, dy);
  CHECK(l == any(x.a < y.a, all(eq(x.a, y.a), x.b < y.b)));
  if (!x.empty() && !y.empty()) {
    CHECK((dx ^ dy) == meet(x, y));
    auto rel = dx.relationship(dy);
    using Rel = swoc::DiscreteRangeRelation;
    CHECK((rel == Rel::EQUAL) == same);
    CHECK((rel == Rel::SUBSET) == all(sub(x, y), !same));
    CHECK((rel == Rel::SUPERSET) == all(sub(y, x), !same));
    CHECK((rel == Rel::OVERLAP) == all(meet(x, y), !sub(x, y), !sub(y, x)));
    CHECK((rel == Rel::ADJACENT) == adj(x, y));
    CHECK((rel == Rel::NONE) == all(!meet(x, y), !adj(x, y)));
    auto e = dx.left_edge_relationship(dy);
    using Edge = swoc::DiscreteRangeEdgeRelation;
    CHECK((e == Edge::NONE) == (y.a < x.a));
    CHECK((e == Edge::OVLP) == x.has(y.a));
    CHECK((e == Edge::ADJ) == left_adj(x, y));
    CHECK((e == Edge::GAP) == all(x.b < y.a, !left_adj(x, y)));
  }
  REACH("done");
}
#define ENTRY(NAME, F)                                                                                                  \
  HARNESS(NAME)                                                                                                         \
  {                                                                                                                     \
    switch (sym_split(4, "type")) {                                                                                     \
    case 0:                                                                                                             \
      F<uint8_t>();                                                                                                     \
      break;                                                                                                            \
    case 1:                                                                                                             \
      F<int16_t>();                                                                                                     \
      break;                                                                                                            \
    case 2:                                                                                                             \
      F<uint64_t>();                                                                                                    \
      break;                                                                                                            \
    case 3:                                                                                                             \
      F<swoc::IP4Addr>();                                                                                               \
      break;                                                                                                            \
    }                                                                                                                   \
  }
ENTRY(h_range_pred, pred)
ENTRY(h_range_algebra, algebra)
ENTRY(h_range_order, order)
