// IPSpace and IPRangeSet against points: a space is a partial function from addresses of both families to payloads.
//@ entry h_ipspace_seq props=I10 shards=64 time=600 : every history of 2 (thorough 3) operations out of mark, fill, erase, blend over arbitrary ranges of either family (any IPv4 or IPv6 bounds) and the invalid range, probed at one arbitrary address of each family
//@ entry h_ipspace_walk props=I10 shards=32 time=600 : iteration in both directions and by family over every space with 0..2 (thorough 3) arbitrary ranges of each family
//@ entry h_ipspace_meet props=I10 shards=32 time=600 : the intersection of any range of either family (or the invalid range) with every space of 0..2 (thorough 3) arbitrary ranges of each family
//@ entry h_ipset props=I10 shards=32 time=600 : range sets after every history of 2 (thorough 3) operations, the last a mark or fill, those before marks, of arbitrary ranges of either family
//@ srcs: swoc_ip TextView bw_format bw_ip_format MemArena RBTree string_view_util
#include <tuple>
#include "vf.h"
#include "swoc/swoc_ip.h"
using swoc::IP4Addr;
using swoc::IP4Range;
using swoc::IP6Addr;
using swoc::IP6Range;
using swoc::IPAddr;
using swoc::IPRange;
using swoc::IPRangeSet;
using swoc::IPRangeView;
using swoc::IPSpace;
using Space = IPSpace<uint8_t>;

static IP6Addr A6(uint64_t hi, uint64_t lo)
{
  in6_addr r;
  uint64_t h = __builtin_bswap64(hi), l = __builtin_bswap64(lo);
  memcpy(r.s6_addr, &h, 8);
  memcpy(r.s6_addr + 8, &l, 8);
  return IP6Addr(r);
}
// branch free comparison
static bool le(IP4Addr const &a, IP4Addr const &b) { return a.host_order() <= b.host_order(); }
static bool lt(IP4Addr const &a, IP4Addr const &b) { return a.host_order() < b.host_order(); }
struct V6 {
  uint64_t hi, lo;
  V6(IP6Addr const &a)
  {
    in6_addr n = a.network_order();
    memcpy(&hi, n.s6_addr, 8);
    memcpy(&lo, n.s6_addr + 8, 8);
    hi = __builtin_bswap64(hi);
    lo = __builtin_bswap64(lo);
  }
};
static bool lt(V6 a, V6 b) { return any(a.hi < b.hi, all(a.hi == b.hi, a.lo < b.lo)); }
static bool le(V6 a, V6 b) { return !lt(b, a); }
static bool lt(IP6Addr const &a, IP6Addr const &b) { return lt(V6(a), V6(b)); }
static bool le(IP6Addr const &a, IP6Addr const &b) { return !lt(b, a); }
static IP4Addr any4(const char *name) { return IP4Addr(in_addr_t(sym_u32(name))); }
static IP6Addr any6(const char *name)
{
  uint64_t hi = sym_u64(name);
  return A6(hi, sym_u64(name));
}
static IP4Range range4(const char *a, const char *b)
{
  IP4Addr x = any4(a), y = any4(b);
  ASSUME(le(x, y));
  return {x, y};
}
static IP6Range range6(const char *a, const char *b)
{
  IP6Addr x = any6(a), y = any6(b);
  ASSUME(le(x, y));
  return {x, y};
}
// The model: the payload (0 is none) of one address of each family.
struct Points {
  IP4Addr p4 = any4("p4");
  IP6Addr p6 = any6("p6");
  uint8_t v4 = 0, v6 = 0;
  bool in4(IPRange const &r) const { return r.is_ip4() && all(le(r.ip4().min(), p4), le(p4, r.ip4().max())); }
  bool in6(IPRange const &r) const { return r.is_ip6() && all(le(r.ip6().min(), p6), le(p6, r.ip6().max())); }
  template <typename F> void apply(IPRange const &r, F f)
  {
    if (r.is_ip4()) {
      uint8_t v = v4;
      f(v);
      v4 = in4(r) ? v : v4;
    } else if (r.is_ip6()) {
      uint8_t v = v6;
      f(v);
      v6 = in6(r) ? v : v6;
    }
  }
};
static IPRange any_range(unsigned kind, const char *a, const char *b) { return kind == 0 ? IPRange(range4(a, b)) : kind == 1 ? IPRange(range6(a, b)) : IPRange(); }
static void probe(Space &s, Points const &pt)
{
  Space const &cs = s;
  if (sym_split(2, "probe")) {
    auto spot = s.find(pt.p4);
    CHECKM((spot != s.end()) == (pt.v4 != 0), "an IPv4 address is found exactly if it has a payload");
    if (spot != s.end()) {
      CHECKM(spot->payload() == pt.v4, "payload of an IPv4 address");
      CHECKM(spot->range_view().is_ip4() && spot->range_view().ip4().contains(pt.p4) && spot->range().contains(pt.p4), "its range");
      auto &&[r, p] = *spot;
      CHECK(r.is_ip4() && p == pt.v4);
    }
    CHECK(s.find(IPAddr(pt.p4)) == spot);
    CHECK(cs.find(pt.p4) == spot);
    CHECK(cs.find(IPAddr(pt.p4)) == spot);
  } else {
    auto spot = s.find(pt.p6);
    CHECKM((spot != s.end()) == (pt.v6 != 0), "an IPv6 address is found exactly if it has a payload");
    if (spot != s.end()) {
      CHECKM(spot->payload() == pt.v6, "payload of an IPv6 address");
      CHECKM(spot->range_view().is_ip6() && spot->range_view().ip6().contains(pt.p6) && spot->range().contains(pt.p6), "its range");
      auto &&[r, p] = *spot;
      CHECK(r.is_ip6() && p == pt.v6);
    }
    CHECK(s.find(IPAddr(pt.p6)) == spot);
    CHECK(cs.find(pt.p6) == spot);
    CHECK(cs.find(IPAddr(pt.p6)) == spot);
  }
  CHECK(s.find(IPAddr()) == s.end());
}
// Iteration and counts; returns the number of ranges
static void walk(Space &s, Points const &pt)
{
  unsigned n4 = 0, n6 = 0;
  bool ok = true;
  uint8_t f4 = 0, f6 = 0;
  IP4Addr last4;
  IP6Addr last6;
  for (auto it = s.begin(), limit = s.end(); it != limit; ++it) {
    auto const &rv = it->range_view();
    uint8_t p = it->payload();
    if (rv.is_ip4()) {
      CHECKM(n6 == 0, "IPv4 ranges first");
      IP4Range r = rv.ip4();
      ok = all(ok, le(r.min(), r.max()), any(n4 == 0, lt(last4, r.min())));
      last4 = r.max();
      f4 = all(le(r.min(), pt.p4), le(pt.p4, r.max())) ? p : f4;
      ++n4;
    } else {
      CHECK(rv.is_ip6());
      IP6Range r = rv.ip6();
      ok = all(ok, le(r.min(), r.max()), any(n6 == 0, lt(last6, r.min())));
      last6 = r.max();
      f6 = all(le(r.min(), pt.p6), le(pt.p6, r.max())) ? p : f6;
      ++n6;
    }
    CHECKM(n4 + n6 < 32, "iteration ends");
  }
  CHECKM(ok, "ranges are not empty, disjoint and ascending");
  CHECKM(all(f4 == pt.v4, f6 == pt.v6), "the ranges around the addresses have their payload");
  CHECKM(all(s.count() == n4 + n6, s.count_ip4() == n4, s.count_ip6() == n6), "counts");
  CHECKM(all(s.count(AF_INET) == n4, s.count(AF_INET6) == n6, s.count(AF_UNSPEC) == 0), "counts by family");
  CHECKM(s.empty() == (n4 + n6 == 0), "empty");
}
static bool change(uint8_t &v, uint8_t c)
{
  bool ok = v != 2; // removes one of the payloads
  v = v * 3 + c;
  return ok;
}
HARNESS(h_ipspace_seq)
{
  Space s;
  Points pt;
  static const unsigned K = BOUND(2, 3);
  for (unsigned k = 0; k < K; ++k) {
    unsigned fam = sym_split(k + 1 == K ? 3 : 2, "family"), op = sym_split(k == 0 ? 2 : 4, "op");
    IPRange r = any_range(fam, "a", "b");
    uint8_t c = op == 2 ? 0 : 1 + (k & 1);
    switch (op) {
    case 0:
      CHECK(&s.mark(r, c) == &s);
      pt.apply(r, [&](uint8_t &v) { v = c; });
      break;
    case 1:
      CHECK(&s.fill(r, c) == &s);
      pt.apply(r, [&](uint8_t &v) { v = v ? v : c; });
      break;
    case 2:
      CHECK(&s.erase(r) == &s);
      pt.apply(r, [&](uint8_t &v) { v = 0; });
      break;
    case 3: {
      auto mix = [](uint8_t &v, uint8_t const &x) -> bool { return change(v, x); };
      bool typed = sym_pick(2, "typed");
      if (typed && r.is_ip4())
        CHECK(&s.blend(r.ip4(), c, mix) == &s);
      else if (typed && r.is_ip6())
        CHECK(&s.blend(r.ip6(), c, mix) == &s);
      else
        CHECK(&s.blend(r, c, mix) == &s);
      pt.apply(r, [&](uint8_t &v) {
        bool ok = change(v, c);
        v = ok ? v : 0;
      });
      break;
    }
    }
  }
  if (sym_split(2, "look")) {
    walk(s, pt);
    s.clear();
    pt.v4 = pt.v6 = 0;
    walk(s, pt);
  } else
    probe(s, pt);
  REACH("done");
}
// A space of disjoint ranges in both families
struct Built {
  Space s;
  IP4Range r4[3];
  IP6Range r6[3];
  unsigned n4, n6;
  uint8_t c4(unsigned i) { return 10 + i; }
  uint8_t c6(unsigned i) { return 20 + i; }
  Built()
  {
    n4 = sym_split(BOUND(3, 4), "n4");
    n6 = sym_split(BOUND(3, 4), "n6");
    for (unsigned i = 0; i < n6; ++i) {
      r6[i] = range6("a6", "b6");
      ASSUME(i == 0 || lt(r6[i - 1].max(), r6[i].min()));
      s.mark(r6[i], c6(i));
    }
    for (unsigned i = 0; i < n4; ++i) {
      r4[i] = range4("a4", "b4");
      ASSUME(i == 0 || lt(r4[i - 1].max(), r4[i].min()));
      s.mark(r4[i], c4(i));
    }
  }
  template <typename I> void is(I const &it, unsigned k)
  {
    if (k < n4) {
      CHECK(it->range_view().is_ip4() && it->range_view().ip4() == r4[k]);
      CHECK(it->payload() == c4(k));
      CHECK(it->range() == IPRange(r4[k]));
    } else {
      k -= n4;
      CHECK(it->range_view().is_ip6() && it->range_view().ip6() == r6[k]);
      CHECK(it->payload() == c6(k));
      CHECK(it->range() == IPRange(r6[k]));
    }
  }
};
template <typename I> static void both_ways(Built &b, I first, I last, unsigned from, unsigned to)
{
  I it = first, old;
  for (unsigned k = from; k < to; ++k) {
    CHECKM(it != last, "all ranges");
    b.is(it, k);
    I before = it;
    if (k & 1) {
      old = it++;
      CHECK(old == before);
      b.is(old, k);
    } else {
      CHECK(&++it == &it);
    }
    CHECK(it != before);
  }
  CHECKM(it == last, "no more ranges");
  it = last;
  for (unsigned k = to; k > from;) {
    --k;
    if (k & 1) {
      old = it--;
      CHECK(old != it);
    } else {
      CHECK(&--it == &it);
    }
    b.is(it, k);
  }
  CHECKM(it == first, "back at the start");
}
HARNESS(h_ipspace_walk)
{
  Built b;
  Space const &cs = b.s;
  unsigned n = b.n4 + b.n6;
  CHECK(cs.count() == n);
  switch (sym_split(6, "way")) {
  case 0:
    both_ways(b, b.s.begin(), b.s.end(), 0, n);
    break;
  case 1:
    both_ways(b, cs.begin(), cs.end(), 0, n);
    break;
  case 2:
    both_ways(b, b.s.begin_ip4(), b.s.end_ip4(), 0, b.n4);
    both_ways(b, b.s.begin_ip6(), b.s.end_ip6(), b.n4, n);
    break;
  case 3:
    both_ways(b, cs.begin_ip4(), cs.end_ip4(), 0, b.n4);
    both_ways(b, cs.begin_ip6(), cs.end_ip6(), b.n4, n);
    break;
  case 4:
    both_ways(b, b.s.begin(AF_INET), b.s.end(AF_INET), 0, b.n4);
    both_ways(b, b.s.begin(AF_INET6), b.s.end(AF_INET6), b.n4, n);
    CHECK(b.s.begin(AF_UNSPEC) == b.s.end(AF_UNSPEC));
    break;
  case 5: { // payloads can be changed in place
    unsigned k = 0;
    for (auto &&[r, p] : b.s) {
      CHECK(r.is_ip4() == (k < b.n4));
      p = 77 + k++;
    }
    k = 0;
    for (auto &v : cs)
      CHECK(v.payload() == 77 + k++);
    CHECK(k == n);
    Space::iterator it = b.s.begin(), copy;
    copy = it;
    CHECK(copy == it);
    break;
  }
  }
  REACH("done");
}
HARNESS(h_ipspace_meet)
{
  Built b;
  unsigned kind = sym_split(3, "kind");
  IPRange r = any_range(kind, "x", "y");
  unsigned from = b.n4 + b.n6, to = from;
  if (kind == 0) {
    from = 0;
    while (from < b.n4 && b.r4[from].max() < r.ip4().min())
      ++from;
    to = from;
    while (to < b.n4 && b.r4[to].min() <= r.ip4().max())
      ++to;
  } else if (kind == 1) {
    from = 0;
    while (from < b.n6 && b.r6[from].max() < r.ip6().min())
      ++from;
    to = from;
    while (to < b.n6 && b.r6[to].min() <= r.ip6().max())
      ++to;
    from += b.n4;
    to += b.n4;
  }
  auto [first, last] = b.s.intersection(r);
  if (from == to)
    CHECKM(first == last, "no range intersects");
  else
    both_ways(b, first, last, from, to);
  REACH("done");
}
HARNESS(h_ipset)
{
  IPRangeSet s;
  Points pt;
  static const unsigned K = BOUND(2, 3);
  CHECK(all(s.empty(), s.count() == 0, s.begin() == s.end()));
  for (unsigned k = 0; k < K; ++k) {
    unsigned fam = sym_split(2, "family");
    IPRange r = any_range(fam, "a", "b");
    CHECK(&(k + 1 == K && sym_split(2, "op") ? s.fill(r) : s.mark(r)) == &s);
    pt.apply(r, [&](uint8_t &v) { v = 1; });
  }
  IPRangeSet const &cs = s;
  switch (sym_split(3, "look")) {
  case 0:
    CHECKM(cs.contains(IPAddr(pt.p4)) == (pt.v4 != 0), "contains exactly the marked IPv4 addresses");
    CHECK(!cs.contains(IPAddr()));
    return;
  case 1:
    CHECKM(cs.contains(IPAddr(pt.p6)) == (pt.v6 != 0), "contains exactly the marked IPv6 addresses");
    return;
  }
  unsigned n = 0, n6 = 0;
  bool f4 = false, f6 = false;
  IP4Addr last4;
  IP6Addr last6;
  auto last = cs.end();
  for (auto it = cs.begin(); it != last; ++it, ++n) {
    IPRangeView const &rv = *it;
    CHECK(it->is_ip4() == rv.is_ip4());
    if (rv.is_ip4()) {
      CHECKM(n6 == 0, "IPv4 ranges first");
      CHECKM(all(le(rv.ip4().min(), rv.ip4().max()), any(n == 0, lt(last4, rv.ip4().min()))), "ascending and disjoint");
      last4 = rv.ip4().max();
      f4 = any(f4, all(le(rv.ip4().min(), pt.p4), le(pt.p4, rv.ip4().max())));
    } else {
      CHECK(rv.is_ip6());
      CHECKM(all(le(rv.ip6().min(), rv.ip6().max()), any(n6 == 0, lt(last6, rv.ip6().min()))), "ascending and disjoint");
      last6 = rv.ip6().max();
      f6 = any(f6, all(le(rv.ip6().min(), pt.p6), le(pt.p6, rv.ip6().max())));
      ++n6;
    }
    CHECK(n < 16);
  }
  CHECKM(all(f4 == (pt.v4 != 0), f6 == (pt.v6 != 0)), "the ranges cover exactly the marked addresses");
  CHECKM(all(cs.count() == n, cs.empty() == (n == 0)), "count");
  for (unsigned k = 0; k < n; ++k)
    --last;
  CHECKM(last == cs.begin(), "as many steps back");
  s.clear();
  CHECK(all(s.empty(), s.begin() == s.end(), !s.contains(IPAddr(pt.p4)), !s.contains(IPAddr(pt.p6))));
  REACH("done");
}
