// DiscreteSpace against points: the space is a partial function from points to payloads, probed at an arbitrary point.
//@ entry h_space_seq props=C05 shards=64 time=600 : every history of 3 (thorough 4) operations out of mark, fill, erase with arbitrary ranges over an 8 bit metric (so including both extremes, singletons, adjacent, nested, equal ranges) and two payloads
//@ entry h_space_step props=C05 shards=64 time=600 : one operation on every space of 4 (thorough 5) disjoint ranges with arbitrary end points (touching or not) and any of two payloads
//@ entry h_space_blend props=C06 shards=64 time=600 : one blend over every space of up to 3 (thorough 4) ranges, six blenders (fold, replace - with colours that include the default payload -, refuse some, refuse all, refuse uncoloured points, refuse the points of the default payload)
//@ entry h_space_blend_seq props=C06 shards=64 time=600 : two blends after one mark; three blends in a row
//@ entry h_space_bounds props=C05 shards=8 : lower_bound, upper_bound, intersection at arbitrary arguments for spaces of up to 3 (thorough 5) ranges
//@ entry h_space_payload props=C05,C06 shards=8 : payload objects are constructed and destroyed exactly once each over operations, clear and destruction
#include "vf.h"
#include "swoc/DiscreteRange.h"
using swoc::DiscreteRange;
// A metric type of 256 values - the space requires a class type metric, as the IP address types are.
class Metric {
  uint8_t _v = 0;

public:
  static const Metric MIN;
  static const Metric MAX;
  constexpr Metric() = default;
  constexpr Metric(uint8_t v) : _v(v) {}
  Metric &operator++() { ++_v; return *this; }
  Metric &operator--() { --_v; return *this; }
  friend constexpr bool operator==(Metric a, Metric b) { return a._v == b._v; }
  friend constexpr bool operator!=(Metric a, Metric b) { return a._v != b._v; }
  friend constexpr bool operator<(Metric a, Metric b) { return a._v < b._v; }
  friend constexpr bool operator<=(Metric a, Metric b) { return a._v <= b._v; }
  friend constexpr bool operator>(Metric a, Metric b) { return a._v > b._v; }
  friend constexpr bool operator>=(Metric a, Metric b) { return a._v >= b._v; }
};
const Metric Metric::MIN{0};
const Metric Metric::MAX{255};
using M = Metric;
using Range = DiscreteRange<M>;
static int g_live;
struct Counted {
  uint8_t v = 0;
  Counted() { ++g_live; }
  Counted(uint8_t x) : v(x) { ++g_live; }
  Counted(Counted const &o) : v(o.v) { ++g_live; }
  Counted &operator=(Counted const &) = default;
  ~Counted() { --g_live; }
  bool operator==(Counted const &o) const { return v == o.v; }
  bool operator!=(Counted const &o) const { return v != o.v; }
};
static uint8_t g_default; // the colour that the default payload stands for; if not 0 the default payload is a colour as any other
static uint8_t val(uint8_t v) { return v + g_default; }
static uint8_t val(Counted const &c) { return c.v + g_default; }
static uint8_t pay(uint8_t colour) { return colour - g_default; }
// The model: payload (0 is none) of the probed point.
struct Point {
  M p;
  uint8_t v = 0;
  void mark(bool in, uint8_t c) { v = in ? c : v; }
  void fill(bool in, uint8_t c) { v = all(in, v == 0) ? c : v; }
  void erase(bool in) { v = in ? 0 : v; }
};
template <typename S> static void verify(S &s, Point const &pt)
{
  // iteration: ascending, disjoint, not empty, in agreement with the probed point
  unsigned n = 0;
  bool ok = true, covered = false;
  uint8_t found = 0;
  M last = 0;
  for (auto &node : s) {
    M a = node.min(), b = node.max();
    ok = all(ok, a <= b);
    if (n)
      ok = all(ok, last < a);
    last = b;
    bool in = all(a <= pt.p, pt.p <= b);
    covered = any(covered, in);
    found = in ? val(node.payload()) : found;
    ++n;
    CHECKM(n < 64, "iteration ends");
  }
  CHECKM(ok, "the ranges are not empty, disjoint and ascending");
  CHECKM(covered == (pt.v != 0), "the ranges cover exactly the coloured points");
  CHECKM(found == pt.v, "the range around a point has its payload");
  CHECKM(s.count() == n, "count");
  CHECKM(s.empty() == (n == 0), "empty");
  auto spot = s.find(pt.p);
  if (spot == s.end()) {
    CHECKM(pt.v == 0, "a coloured point is found");
  } else {
    CHECKM(val(spot->payload()) == pt.v, "find gives the payload of the point");
    CHECKM(spot->min() <= pt.p && pt.p <= spot->max(), "find gives the range of the point");
  }
}
static Range any_range(const char *a, const char *b)
{
  M x = sym_u8(a), y = sym_u8(b);
  ASSUME(x <= y);
  return {x, y};
}
static bool in(Range const &r, M p) { return all(r.min() <= p, p <= r.max()); }
template <typename S> static void any_op(S &s, Point &pt, unsigned op, uint8_t colour)
{
  switch (op) {
  case 0: {
    auto r = any_range("ma", "mb");
    CHECK(&s.mark(r, pay(colour)) == &s);
    pt.mark(in(r, pt.p), colour);
    break;
  }
  case 1: {
    auto r = any_range("fa", "fb");
    CHECK(&s.fill(r, pay(colour)) == &s);
    pt.fill(in(r, pt.p), colour);
    break;
  }
  case 2: {
    auto r = any_range("ea", "eb");
    CHECK(&s.erase(r) == &s);
    pt.erase(in(r, pt.p));
    break;
  }
  case 3: { // no point at all
    M x = sym_u8("na"), y = sym_u8("nb");
    ASSUME(y < x);
    Range r{x, y};
    unsigned k = sym_pick(3, "empty");
    if (k == 0)
      s.mark(r, pay(colour));
    else if (k == 1)
      s.fill(r, pay(colour));
    else
      s.erase(r);
    break;
  }
  }
}
using Space = swoc::DiscreteSpace<M, uint8_t>;
HARNESS(h_space_seq)
{
  Space s;
  Point pt{sym_u8("p")};
  static const unsigned K = BOUND(3, 4);
  for (unsigned k = 0; k < K; ++k) {
    unsigned op = sym_split(k == 0 ? 2 : k + 1 == K ? 4 : 3, "op");
    any_op(s, pt, op, k == 0 || op == 2 ? 1 : 1 + sym_split(2, "colour"));
  }
  verify(s, pt);
  s.clear();
  pt.v = 0;
  verify(s, pt);
  REACH("done");
}
// A space of n disjoint ranges, built from left to right or otherwise.
template <typename S> static void build(S &s, Point &pt, unsigned n, unsigned order)
{
  Range r[6];
  uint8_t c[6];
  M last = 0;
  for (unsigned i = 0; i < n; ++i) {
    r[i] = any_range("a", "b");
    ASSUME(i == 0 || last < r[i].min());
    last = r[i].max();
    c[i] = 1 + sym_split(2, "c");
    pt.mark(in(r[i], pt.p), c[i]);
  }
  for (unsigned i = 0; i < n; ++i) {
    unsigned j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 2 + 1) % (n | 1) % n;
    if (order == 2) { // inside out: odd ones then even ones
      unsigned odd = n / 2;
      j = i < odd ? 2 * i + 1 : 2 * (i - odd);
    }
    s.mark(r[j], pay(c[j]));
  }
}
HARNESS(h_space_step)
{
  Space s;
  Point pt{sym_u8("p")};
  unsigned order = sym_split(3, "order");
  build(s, pt, BOUND(4, 5), order);
  verify(s, pt);
  any_op(s, pt, sym_split(3, "op"), 1);
  verify(s, pt);
  REACH("done");
}
HARNESS(h_space_bounds)
{
  Space s;
  Point pt{sym_u8("p")};
  unsigned n = sym_split(BOUND(4, 6), "n");
  build(s, pt, n, 0);
  M m = pt.p;
  switch (sym_split(3, "what")) {
  case 0: {
    auto it = s.lower_bound(m);
    for (auto x = s.begin(); x != s.end(); ++x) {
      bool before = x->min() <= m;
      auto nx = x;
      ++nx;
      bool last = nx == s.end() || nx->min() > m;
      CHECKM((it == x) == (before && last), "lower bound is the rightmost range that starts at or before");
    }
    CHECK(it != s.end() || s.begin() == s.end() || s.begin()->min() > m);
    break;
  }
  case 1: {
    auto it = s.upper_bound(m);
    auto x = s.begin();
    while (x != s.end() && x->min() <= m)
      ++x;
    CHECKM(it == x, "upper bound is the leftmost range that starts after");
    break;
  }
  case 2: {
    auto r = any_range("ia", "ib");
    auto span = s.intersection(r);
    auto x = s.begin();
    while (x != s.end() && x->max() < r.min())
      ++x;
    auto y = x;
    while (y != s.end() && y->min() <= r.max())
      ++y;
    if (x == y)
      CHECKM(span.first == span.second, "no range intersects");
    else
      CHECKM(span.first == x && span.second == y, "exactly the intersecting ranges");
    break;
  }
  }
  REACH("done");
}
// --- blend
static unsigned g_kind;
static uint8_t mix(uint8_t old, uint8_t colour) { return uint8_t(old * 3 + colour); } // applying it twice shows
static bool apply(uint8_t &v, uint8_t colour)
{
  switch (g_kind) {
  case 0:
    v = mix(v, colour);
    return true;
  case 1:
    v = colour;
    return true;
  case 2: { // refuses one of the existing colours
    bool ok = v != 2;
    v = mix(v, colour);
    return ok;
  }
  case 3: // refuses uncoloured points
  {
    bool ok = v != 0;
    v = mix(v, colour);
    return ok;
  }
  default:
    v = 9;
    return false;
  }
}
template <typename S> static void blend(S &s, Point &pt, uint8_t colour)
{
  auto r = any_range("ba", "bb");
  s.blend(r, colour, [](auto &payload, uint8_t const &c) -> bool {
    uint8_t v = val(payload);
    bool ok = apply(v, c);
    payload = pay(v);
    return ok;
  });
  uint8_t v = pt.v == 0 ? g_default : pt.v; // an uncoloured point blends as the default payload
  bool ok = apply(v, colour);
  pt.v = in(r, pt.p) ? (ok ? v : 0) : pt.v;
}
static void pick_blender()
{
  g_kind = sym_split(6, "blender");
  g_default = g_kind == 5 || g_kind == 1;
  if (g_kind == 5)
    g_kind = 3;
}
HARNESS(h_space_blend)
{
  Space s;
  Point pt{sym_u8("p")};
  unsigned n = sym_split(BOUND(4, 5), "n");
  pick_blender();
  build(s, pt, n, 0);
  blend(s, pt, sym_split(2, "colour") ? 3 : 1);
  verify(s, pt);
  REACH("done");
}
HARNESS(h_space_blend_seq)
{
  Space s;
  Point pt{sym_u8("p")};
  pick_blender();
  unsigned k = sym_split(2, "start");
  if (k)
    build(s, pt, 1, 0);
  for (unsigned i = k; i < BOUND(3, 3); ++i)
    blend(s, pt, i == 1 ? 1 : 2);
  verify(s, pt);
  REACH("done");
}
HARNESS(h_space_payload)
{
  using CS = swoc::DiscreteSpace<M, Counted>;
  g_live = 0;
  {
    CS s;
    Point pt{sym_u8("p")};
    for (unsigned i = 0; i < 3; ++i) {
      unsigned op = sym_split(i == 0 ? 2 : 4, "op");
      if (op < 3)
        any_op(s, pt, op, 1 + (i & 1));
      else {
        g_kind = sym_pick(5, "blender");
        blend(s, pt, 2);
      }
      CHECKM(g_live == int(s.count()), "one payload object per range");
    }
    unsigned end = sym_pick(2, "end");
    if (end) {
      s.clear();
      CHECKM(g_live == 0, "all payloads are destroyed by clear");
      any_op(s, pt, 0, 1);
      CHECK(g_live == 1);
    }
  }
  CHECKM(g_live == 0, "all payloads are destroyed with the space");
  REACH("done");
}
