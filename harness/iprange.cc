// Address ranges, their decomposition into networks, and networks.
//@ entry h_range4_any props=I05 shards=64 time=600 : IPv4 range parsing of every text of 0..5 (thorough 6) bytes over digits 0 1 3 9, '.', '-', '/', 'x', ':', blank and one byte above 127, relative to the parsing of the address and mask text parts
//@ entry h_range6_any props=I05 shards=64 time=600 : IPv6 range parsing of every text of 0..6 (thorough 7) bytes over digits 0 1 9, 'a', 'F', ':', '-', '/', '[', ']', blank and one byte above 127, relative to the parsing of the parts
//@ entry h_range_text props=I05 shards=32 time=600 : range parsing by all three range classes of 40 shapes of range text with up to three arbitrary characters, into a range that holds either family before
//@ entry h_range_mask props=I05 shards=8 : all IPv4 and IPv6 addresses with every mask width as a range
//@ entry h_range_ops props=I05 shards=16 : all pairs of IPv4 and of IPv6 ranges (with any bounds): containment, intersection, hull, equality; the same through the family independent range and the range view
//@ entry h_range_print props=I05 shards=64 time=600 : printing (plain and compact) of IPv4 ranges that are networks of each width, almost networks, singletons or arbitrary in one octet of each bound, the same for IPv6 with one arbitrary group, and loading the text again
//@ entry h_nets_step4 props=I06 shards=16 time=600 : the first two networks of every IPv4 range, and the equivalence of the rest after the first with the networks of the remaining range
//@ entry h_nets_step6 props=I06 shards=64 time=600 : the same for IPv6 ranges, the two bounds of the range equal outside a window of 20 (thorough 40) bits at each of 6 positions
//@ entry h_nets_full props=I06 shards=64 time=600 : complete decomposition of all IPv4 and IPv6 ranges whose bounds differ only in a window of 4 (thorough 5) bits, at 7 / 9 positions in addresses with arbitrary higher bits, and of the largest ranges (with one or both end addresses left out)
//@ entry h_net4 props=I07 shards=8 : every IPv4 address with each mask width as network
//@ entry h_net6 props=I07 shards=16 : every IPv6 address with each mask width as network
//@ entry h_net_any props=I07 shards=64 time=600 : network parsing of every text of 0..5 (thorough 6) bytes over digits 0 1 3 9, '.', '/', ':', 'F', '-', blank and one byte above 127, relative to the parsing of the parts
//@ entry h_net_text props=I07 shards=32 time=600 : network parsing by all three network classes of 30 shapes of network text with up to three arbitrary characters (as width or mask address)
//@ entry h_net_print props=I07 shards=16 time=600 : printing of networks of every width with one arbitrary octet / group, and loading the text again
//@ srcs: swoc_ip TextView bw_format bw_ip_format MemArena RBTree string_view_util
#include <initializer_list>
#include "vf.h"
#include "swoc/swoc_ip.h"
#include "swoc/bwf_ip.h"
#include "swoc/TextView.h"
using swoc::FixedBufferWriter;
using swoc::IP4Addr;
using swoc::IP4Net;
using swoc::IP4Range;
using swoc::IP6Addr;
using swoc::IP6Net;
using swoc::IP6Range;
using swoc::IPAddr;
using swoc::IPMask;
using swoc::IPNet;
using swoc::IPRange;
using swoc::IPRangeView;
using swoc::TextView;
using swoc::bwf::Spec;

struct Txt {
  char c[128];
  unsigned n = 0;
  void put(char ch) { c[n++] = ch; }
  void put(TextView v) { for (char ch : v) put(ch); }
  TextView view() const { return {c, n}; }
};
template <typename F> static void with_text(Txt const &t, F f)
{
  Block b(t.n);
  if (t.n)
    memcpy(b.p, t.c, t.n);
  f(TextView(b.p, t.n));
}
static void put_any(Txt &t, unsigned n, const char *set)
{
  for (unsigned i = 0; i < n; ++i) {
    char c = sym_u8("c");
    bool in = false;
    for (const char *k = set; *k; ++k)
      in = any(in, c == *k);
    ASSUME(in);
    t.put(c);
  }
}
static void put_shape(Txt &t, const char *p)
{
  for (; *p; ++p) {
    char c = *p;
    if (c == '#') { // any digit
      c = sym_u8("digit");
      ASSUME(all(c >= '0', c <= '9'));
    } else if (c == '?') // any character
      c = sym_u8("char");
    t.put(c);
  }
}
struct V6 {
  uint64_t hi = 0, lo = 0;
};
static in6_addr net_of(V6 v)
{
  in6_addr r;
  uint64_t h = __builtin_bswap64(v.hi), l = __builtin_bswap64(v.lo);
  memcpy(r.s6_addr, &h, 8);
  memcpy(r.s6_addr + 8, &l, 8);
  return r;
}
static IP6Addr A6(V6 v) { return IP6Addr(net_of(v)); }
static IP4Addr A4(uint32_t v) { return IP4Addr(in_addr_t(v)); }
static V6 value_of(IP6Addr const &a)
{
  V6 v;
  in6_addr n = a.network_order();
  memcpy(&v.hi, n.s6_addr, 8);
  memcpy(&v.lo, n.s6_addr + 8, 8);
  v.hi = __builtin_bswap64(v.hi);
  v.lo = __builtin_bswap64(v.lo);
  return v;
}
static uint32_t value_of(IP4Addr const &a) { return a.host_order(); }
static bool eq(V6 a, V6 b) { return all(a.hi == b.hi, a.lo == b.lo); }
static bool eq(uint32_t a, uint32_t b) { return a == b; }
static bool le(V6 a, V6 b) { return any(a.hi < b.hi, all(a.hi == b.hi, a.lo <= b.lo)); }
static bool le(uint32_t a, uint32_t b) { return a <= b; }
static V6 mask6(unsigned w) { return w >= 128 ? V6{~0ull, ~0ull} : w > 64 ? V6{~0ull, ~0ull << (128 - w)} : w == 64 ? V6{~0ull, 0} : w ? V6{~0ull << (64 - w), 0} : V6{}; }
static uint32_t mask4(unsigned w) { return w >= 32 ? ~0u : w ? ~0u << (32 - w) : 0; }
static V6 lo_of(V6 v, V6 m) { return {v.hi & m.hi, v.lo & m.lo}; }
static V6 hi_of(V6 v, V6 m) { return {v.hi | ~m.hi, v.lo | ~m.lo}; }
static uint32_t lo_of(uint32_t v, uint32_t m) { return v & m; }
static uint32_t hi_of(uint32_t v, uint32_t m) { return v | ~m; }
static V6 next(V6 v) { return {v.hi + (v.lo + 1 == 0), v.lo + 1}; }
static uint32_t next(uint32_t v) { return v + 1; }
static V6 any_v6(const char *name) { V6 v; v.hi = sym_u64(name); v.lo = sym_u64(name); return v; }
// The two families.
struct F4 {
  using Range = IP4Range;
  using Net = IP4Net;
  using Addr = IP4Addr;
  using V = uint32_t;
  static constexpr unsigned WIDTH = 32;
  static V mask(unsigned w) { return mask4(w); }
  static Addr addr(V v) { return A4(v); }
  static V any(const char *name) { return sym_u32(name); }
  static Range const &of(IPRange const &r) { return r.ip4(); }
  static Range const &of(IPRangeView const &r) { return r.ip4(); }
};
struct F6 {
  using Range = IP6Range;
  using Net = IP6Net;
  using Addr = IP6Addr;
  using V = V6;
  static constexpr unsigned WIDTH = 128;
  static V mask(unsigned w) { return mask6(w); }
  static Addr addr(V v) { return A6(v); }
  static V any(const char *name) { return any_v6(name); }
  static Range const &of(IPRange const &r) { return r.ip6(); }
  static Range const &of(IPRangeView const &r) { return r.ip6(); }
};
static unsigned first_of(TextView v, const char *set)
{
  for (unsigned i = 0; i < v.size(); ++i)
    for (const char *k = set; *k; ++k)
      if (v[i] == *k)
        return i;
  return v.size();
}
// What a text means as a range, relative to what its parts mean as address or mask text.
template <typename F> struct Meaning {
  bool ok = false, reversed = false;
  typename F::V min{}, max{};
  explicit Meaning(TextView v)
  {
    unsigned i = first_of(v, "/-"), n = v.size();
    if (i == 0)
      return;
    if (typename F::Addr a; a.load(TextView(v.data(), i))) {
      min = max = value_of(a);
      if (i == n) {
        ok = true;
        return;
      }
      TextView rest(v.data() + i + 1, n - i - 1);
      if (v[i] == '/') {
        if (IPMask m; m.load(rest) && m.width() <= F::WIDTH) {
          ok  = true;
          max = hi_of(min, F::mask(m.width()));
          min = lo_of(min, F::mask(m.width()));
        }
      } else if (typename F::Addr b; !rest.empty() && b.load(rest)) {
        ok  = true;
        max = value_of(b);
        reversed = !le(min, max);
      }
    }
  }
};
template <typename F> static void check_loaded(typename F::Range const &r, bool ok, Meaning<F> const &m)
{
  if (m.ok && m.reversed) { // not specified if this is accepted, but it denotes no addresses.
    CHECKM(r.empty(), "a reversed range has no addresses");
    return;
  }
  CHECKM(ok == m.ok, "text accepted exactly if it denotes a range");
  CHECKM(r.empty() == !m.ok, "nothing in the range if it is not accepted");
  if (m.ok)
    CHECKM(all(eq(value_of(r.min()), m.min), eq(value_of(r.max()), m.max)), "exactly the interval");
}
template <typename F> static void range_any(const char *set, int maxn)
{
  unsigned n = sym_split(maxn + 1, "len");
  Txt t;
  put_any(t, n, set);
  with_text(t, [&](TextView v) {
    typename F::Range r{F::addr({}), F::addr({})};
    bool ok = r.load(v);
    check_loaded<F>(r, ok, Meaning<F>(v));
  });
  REACH("done");
}
HARNESS(h_range4_any) { range_any<F4>("0139.-/x: \x80", BOUND(5, 6)); }
HARNESS(h_range6_any) { range_any<F6>("019aF:-/[] \x80", BOUND(6, 7)); }
HARNESS(h_range_text)
{
  static const char *shapes[] = {
    "10.#.2.3-10.9.2.#", "1.2.3.#-1.2.3.#", "10.1.2.3/##", "10.1.2.3/1#", "10.1.2.#/#", "10.#.#.3", "10.1.2.3?#", "10.1.2.3-?0.1.2.4", "10.1.2.3/?", "10.1.2.3/3#?", "0/#", "10.1.2.3-", "-10.1.2.#",
    "10.1.2.3-10.1.2.4-10.1.2.#", "10.1.2.3/2#-10.1.2.4", "10.1.2.3 - 10.1.2.#", "/2#", "10.1.2.3/12#", "0xC0A80#0#", "10.1.2.#-::#", "::#-10.1.2.#",
    "::#-::#", "#::-#::#", "fe80::1-fe80::#a", "::/#", "1:2::#/12#", "1:2::#/1##", "1:2::3?#", "1:2::#", "1:2::3-?::4", "::#/", "::1-", "-::#", "::#-::2-::3", "1:2:3:4:5:6:7:#/6#", "1:2:3:4:5:6:7:#/64#", "::1/?", "::#/-1",
    "", "?", "#:#", "#:-#.1.1.1",
  };
  unsigned s = sym_split(sizeof(shapes) / sizeof(shapes[0]), "shape"), before = sym_split(2, "before");
  Txt t;
  put_shape(t, shapes[s]);
  with_text(t, [&](TextView v) {
    IPRange r = before ? IPRange(A4(0x01020304), A4(0x05060708)) : IPRange(A6({1, 2}), A6({3, 4}));
    bool ok = r.load(v);
    IPRange made(v);
    Meaning<F4> m4(v);
    Meaning<F6> m6(v);
    CHECKM(!m4.ok || !m6.ok, "not a range of both families");
    if ((m4.ok && m4.reversed) || (m6.ok && m6.reversed)) {
      CHECKM(r.empty(), "a reversed range has no addresses");
      return;
    }
    CHECKM(ok == (m4.ok || m6.ok), "text accepted exactly if it denotes a range of either family");
    CHECKM(made == r, "construction from text as load");
    IP4Range c4(v);
    IP6Range c6(v);
    check_loaded<F4>(c4, !c4.empty(), m4);
    check_loaded<F6>(c6, !c6.empty(), m6);
    if (m4.ok) {
      CHECK(all(r.is_ip4(), !r.is_ip6(), r.is(AF_INET), r.family() == AF_INET));
      CHECK(all(r.ip4() == c4, made.ip4() == c4));
    } else if (m6.ok) {
      CHECK(all(r.is_ip6(), !r.is_ip4(), r.is(AF_INET6), r.family() == AF_INET6));
      CHECK(all(r.ip6() == c6, made.ip6() == c6));
    } else
      CHECKM(r.empty(), "nothing in the range if it is not accepted");
  });
  REACH("done");
}
template <typename F> static void range_mask()
{
  typename F::V v = F::any("v");
  unsigned w = sym_pick(F::WIDTH + 1, "width");
  typename F::Range r;
  CHECK(&r.assign(F::addr(v), IPMask(w)) == &r);
  typename F::V m = F::mask(w);
  CHECKM(all(eq(value_of(r.min()), lo_of(v, m)), eq(value_of(r.max()), hi_of(v, m))), "all addresses of the network");
  CHECK(r.network_mask() == IPMask(w));
  CHECK(IPRange(r).network_mask() == IPMask(w));
  CHECK(r.family() == (F::WIDTH == 32 ? AF_INET : AF_INET6));
}
HARNESS(h_range_mask)
{
  if (sym_split(2, "family")) {
    range_mask<F4>();
    uint32_t v = sym_u32("v2");
    unsigned w = sym_pick(33, "w2");
    IP4Range r{A4(v), IPMask(w)};
    CHECK(all(value_of(r.min()) == lo_of(v, mask4(w)), value_of(r.max()) == hi_of(v, mask4(w))));
  } else
    range_mask<F6>();
  REACH("done");
}
template <typename F> static void check_contains(IPRange const &g, IPRangeView const &view, typename F::Range const &r, typename F::Addr const &a, bool in)
{
  CHECKM(r.contains(a) == in, "the range contains exactly the addresses between its bounds");
  CHECKM(g.contains(a) == in, "family independent range");
  CHECKM(g.contains(IPAddr(a)) == in, "family independent range and address");
  CHECKM(view.contains(a) == in, "range view");
  CHECKM(view.contains(IPAddr(a)) == in, "range view, family independent address");
}
template <typename F> static void range_ops(unsigned what)
{
  using R = typename F::Range;
  typename F::V a = F::any("a"), b = F::any("b"), c = F::any("c"), d = F::any("d");
  R x{F::addr(a), F::addr(b)}, y{F::addr(c), F::addr(d)};
  bool xe = !le(a, b), ye = !le(c, d);
  sa_family_t fam = F::WIDTH == 32 ? AF_INET : AF_INET6;
  switch (what) {
  case 0: { // one range and an address
    IPRange g(x);
    IPRangeView view;
    CHECK(&view.assign(x) == &view);
    bool in = all(le(a, c), le(c, b));
    check_contains<F>(g, view, x, F::addr(c), in);
    CHECK(x.empty() == xe);
    CHECK(all(g.empty() == xe, view.empty() == xe));
    CHECK(x.is_singleton() == eq(a, b));
    CHECK(all(eq(value_of(x.min()), a), eq(value_of(x.max()), b)));
    CHECK(all(g.min() == IPAddr(F::addr(a)), g.max() == IPAddr(F::addr(b))));
    CHECK(all(view.min() == IPAddr(F::addr(a)), view.max() == IPAddr(F::addr(b))));
    CHECK(all(g.family() == fam, g.is(fam), g.is_ip4() == (F::WIDTH == 32), g.is_ip6() == (F::WIDTH == 128)));
    CHECK(all(view.is(fam), view.valid(), view.is_ip4() == (F::WIDTH == 32), view.is_ip6() == (F::WIDTH == 128)));
    CHECK(all(F::of(g) == x, &F::of(view) == &x));
    // addresses of the other family
    IP4Addr o4 = A4(sym_u32("o4"));
    IP6Addr o6 = A6(any_v6("o6"));
    if constexpr (F::WIDTH == 32)
      CHECKM(!any(g.contains(o6), g.contains(IPAddr(o6)), view.contains(o6), view.contains(IPAddr(o6))), "no address of the other family");
    else
      CHECKM(!any(g.contains(o4), g.contains(IPAddr(o4)), view.contains(o4), view.contains(IPAddr(o4))), "no address of the other family");
    CHECK(!any(g.contains(IPAddr()), view.contains(IPAddr())));
    break;
  }
  case 1: { // pairs
    IPRange gx(x), gy(y);
    IPRangeView vx, vy;
    vx.assign(x);
    vy.assign(y);
    bool same = all(eq(a, c), eq(b, d));
    bool agree = any(same, xe, ye); // how different empty ranges compare is not specified
    if (!any(xe, ye)) {
      CHECK((x == y) == same);
      CHECK((x != y) == !same);
      CHECK(all((gx == gy) == same, (gx != gy) == !same));
      CHECK(all((vx == vy) == same, (vx != vy) == !same, (vx == gy) == same));
      bool meet = all(le(a, d), le(c, b));
      CHECK(x.has_intersection_with(y) == meet);
      R i = x.intersection(y), i2 = x;
      i2 &= y;
      CHECK(i.empty() == !meet);
      if (meet) {
        CHECK(all(eq(value_of(i.min()), le(a, c) ? c : a), eq(value_of(i.max()), le(b, d) ? b : d)));
        CHECK(i == i2);
      }
      CHECK(x.is_superset_of(y) == all(le(a, c), le(d, b)));
      CHECK(x.is_subset_of(y) == all(le(c, a), le(b, d)));
    }
    (void)agree;
    R h = x.hull(y);
    if (!any(xe, ye))
      CHECK(all(eq(value_of(h.min()), le(a, c) ? a : c), eq(value_of(h.max()), le(b, d) ? d : b)));
    break;
  }
  case 2: { // construction and assignment
    IPRange g(IPAddr(F::addr(a)), IPAddr(F::addr(b))), g2(F::addr(a), F::addr(b)), g3, g4(A4(1), A4(2)), g5(A6({1, 2}), A6({3, 4})), one{F::addr(c)}, one2{IPAddr(F::addr(c))};
    CHECK(all(g == IPRange(x), g2 == IPRange(x), g3.empty(), g3.family() == AF_UNSPEC));
    CHECK(all(one == one2, F::of(one) == R(F::addr(c), F::addr(c)), one.family() == fam));
    IPRangeView view, none;
    view.assign(x);
    CHECK(all(!none.valid(), none.empty(), !none.contains(IPAddr(F::addr(a)))));
    CHECK(&(g4 = view) == &g4);
    CHECK(&(g5 = view) == &g5);
    CHECK(all(g4 == g, g5 == g, IPRange(view) == g, view == g));
    CHECK(&g3.assign(F::addr(a), F::addr(b)) == &g3);
    CHECK(g3 == g);
    CHECK(!(g == IPRange(A4(1), A4(2))) || fam == AF_INET);
    CHECK(!(g == IPRange(A6({1, 2}), A6({3, 4}))) || fam == AF_INET6);
    g4 = none;
    CHECKM(g4.empty(), "assigned from an invalid view");
    CHECK(IPRange(none).empty());
    CHECK(&g5.clear() == &g5);
    CHECK(all(g5.empty(), g5 != g, IPRange() == g5));
    IPRange mixed(IPAddr(A4(1)), IPAddr(A6({1, 2})));
    CHECKM(mixed.empty(), "no range from addresses of different families");
    view.clear();
    CHECK(all(!view.valid(), view.empty(), view == none));
    break;
  }
  }
}
HARNESS(h_range_ops)
{
  unsigned what = sym_split(3, "what");
  if (sym_split(2, "family"))
    range_ops<F4>(what);
  else
    range_ops<F6>(what);
  REACH("done");
}
// ---- printing
template <typename T> static void print(Txt &t, T const &x, Spec const &spec = Spec::DEFAULT)
{
  FixedBufferWriter w(t.c + t.n, sizeof(t.c) - t.n);
  bwformat(w, spec, x);
  CHECK(!w.error());
  t.n += w.size();
}
static bool same_text(TextView a, TextView b)
{
  bool s = a.size() == b.size();
  for (size_t i = 0; s && i < a.size(); ++i)
    s = a[i] == b[i];
  return s;
}
static void put_num(Txt &t, unsigned n)
{
  if (n >= 100)
    t.put('0' + n / 100);
  if (n >= 10)
    t.put('0' + n / 10 % 10);
  t.put('0' + n % 10);
}
// width: the range is known to be a network of this width (WIDTH for a singleton), -1: not a network
template <typename F> static void check_print(typename F::Range const &r, int width)
{
  Spec compact;
  compact._ext = "c";
  IPRange g(r);
  IPRangeView view;
  view.assign(r);
  Txt want, plain, p2, p3;
  print(want, r.min());
  unsigned first = want.n;
  want.put('-');
  print(want, r.max());
  print(plain, r);
  print(p2, g);
  print(p3, view);
  CHECKM(same_text(plain.view(), want.view()), "plain text is both bounds");
  CHECKM(all(same_text(p2.view(), want.view()), same_text(p3.view(), want.view())), "the same for the family independent range and view");
  Txt c, c2, c3;
  if (width >= 0) {
    want.n = first;
    if (width < int(F::WIDTH)) {
      want.put('/');
      put_num(want, width);
    }
  }
  print(c, r, compact);
  print(c2, g, compact);
  print(c3, view, compact);
  CHECKM(same_text(c.view(), want.view()), "compact text is a single address, a network or both bounds");
  CHECKM(all(same_text(c2.view(), want.view()), same_text(c3.view(), want.view())), "the same for the family independent range and view");
  typename F::Range back, back2;
  with_text(plain, [&](TextView v) { CHECK(back.load(v)); });
  with_text(c, [&](TextView v) { CHECK(back2.load(v)); });
  CHECKM(all(back == r, back2 == r), "the text loads back to the range");
}
static IP4Addr base4(unsigned &pos)
{
  pos = sym_split(2, "octet") * 24;
  return A4((0x0A00C800u & ~(0xFFu << pos)) | uint32_t(sym_u8("octet")) << pos);
}
static IP6Addr base6()
{
  V6 v{0x20010db800000000ull, 0x00010000000000a1ull};
  unsigned g = sym_split(3, "group");
  uint16_t x = sym_u16("group");
  if (g == 0)
    v.hi = (v.hi & ~0xFFFFull) | x;
  else if (g == 1)
    v.lo = (v.lo & ~(0xFFFFull << 48)) | uint64_t(x) << 48;
  else
    v.lo = (v.lo & ~0xFFFFull) | x;
  return A6(v);
}
template <typename F> static void range_print(typename F::Addr base)
{
  auto v = value_of(base);
  switch (sym_split(4, "kind")) {
  case 0: // network
  case 1: {
    static const unsigned ws4[] = {0, 1, 7, 8, 9, 16, 23, 24, 25, 30, 31, 32}, ws6[] = {0, 1, 16, 17, 48, 63, 64, 65, 100, 112, 127, 128};
    unsigned w = (F::WIDTH == 32 ? ws4 : ws6)[sym_split(12, "width")];
    auto lo = lo_of(v, F::mask(w)), hi = hi_of(v, F::mask(w));
    if (sym_split(2, "exact"))
      check_print<F>({F::addr(lo), F::addr(hi)}, w);
    else if (w < F::WIDTH - 1) { // all but the first address
      check_print<F>({F::addr(next(lo)), F::addr(hi)}, -1);
    }
    break;
  }
  case 2: // singleton
    check_print<F>({F::addr(v), F::addr(v)}, F::WIDTH);
    break;
  case 3: {
    typename F::Range e;
    Txt t, t2;
    print(t, e);
    print(t2, IPRange(e));
    CHECK(t.view() == t2.view());
    auto u = F::any("u");
    ASSUME(le(u, v));
    break;
  }
  }
}
HARNESS(h_range_print)
{
  if (sym_split(2, "family")) {
    unsigned pos;
    range_print<F4>(base4(pos));
  } else
    range_print<F6>(base6());
  REACH("done");
}
// ---- networks of a range
// The width of the largest network that starts at lo and is inside lo..hi
template <typename F> static bool fits(typename F::V lo, typename F::V hi, unsigned w)
{
  return all(eq(lo_of(lo, F::mask(w)), lo), le(hi_of(lo, F::mask(w)), hi));
}
template <typename F, typename S> static bool check_first(S const &src, typename F::V lo, typename F::V hi)
{
  IPMask m = src.mask();
  unsigned w = sym_concrete(m.width());
  CHECKM(w <= F::WIDTH, "width of a network of this family");
  CHECKM(eq(value_of(src.addr()), lo), "the network starts where the last one ended");
  CHECKM(fits<F>(lo, hi, w), "the network is aligned and inside the range");
  if (w > 0)
    CHECKM(!fits<F>(lo, hi, w - 1), "no larger network starts there");
  typename F::Net n = *src;
  CHECKM(all(eq(value_of(n.min()), lo), n.mask() == m, eq(value_of(n.max()), hi_of(lo, F::mask(w)))), "the network");
  return true;
}
template <typename F> static void step(typename F::V lo, typename F::V hi)
{
  using R = typename F::Range;
  R r{F::addr(lo), F::addr(hi)};
  ASSUME(le(lo, hi));
  auto src = r.networks();
  for (int k = 0; k < 2; ++k) {
    CHECK(all(!src.empty(), src != src.end()));
    check_first<F>(src, lo, hi);
    if (k == 1)
      break;
    auto top = value_of((*src).max());
    bool last = eq(top, hi);
    auto post = src++;
    CHECK(eq(value_of(post.addr()), lo));
    if (last) {
      CHECKM(all(src.empty(), src == src.end()), "no network after the last");
      return;
    }
    lo = next(top);
    R rest{F::addr(lo), F::addr(hi)};
    CHECKM(src == rest.networks(), "the rest is as the networks of the rest");
    auto s2 = rest.networks();
    CHECK(all(src.mask() == s2.mask(), src.addr() == s2.addr()));
  }
  REACH("two");
}
HARNESS(h_nets_step4)
{
  uint32_t a = sym_u32("a"), b = sym_u32("b");
  step<F4>(a, b);
  REACH("done");
}
HARNESS(h_nets_step6)
{
  static const unsigned N = BOUND(20, 40), at[] = {0, 1, 30, 54, 64, 108};
  unsigned p = at[sym_split(6, "position")];
  if (p + N > 128)
    p = 128 - N;
  V6 a = any_v6("a"), d = any_v6("d");
  // bits p..p+N-1 (from the left) may differ, those right of them are arbitrary too
  V6 m = mask6(p), k = mask6(p + N);
  V6 b{(a.hi & m.hi) | (d.hi & ~m.hi), (a.lo & m.lo) | (d.lo & ~m.lo)};
  a = lo_of(a, k);
  b = hi_of(b, k);
  step<F6>(a, b);
  REACH("done");
}
template <typename F> static unsigned whole(typename F::V lo, typename F::V hi)
{
  typename F::Range r{F::addr(lo), F::addr(hi)};
  IPRange g(r);
  IPRangeView view;
  view.assign(r);
  auto gs = g.networks(), vs = view.networks();
  unsigned n = 0;
  for (auto net : r.networks()) {
    unsigned w = sym_concrete(net.mask().width());
    CHECKM(all(w <= F::WIDTH, eq(value_of(net.min()), lo)), "the network starts where the last one ended");
    CHECKM(fits<F>(lo, hi, w), "the network is aligned and inside the range");
    CHECKM(w == 0 || !fits<F>(lo, hi, w - 1), "no larger network starts there");
    CHECK(gs != gs.end());
    CHECKM(all(*gs == net, gs.addr() == IPAddr(net.min()), gs.mask() == net.mask()), "family independent networks");
    CHECKM(all(*vs == net, vs == gs), "networks of a view");
    ++gs;
    ++vs;
    auto top = hi_of(lo, F::mask(w));
    ++n;
    if (eq(top, hi)) {
      CHECK(all(gs == gs.end(), vs == vs.end()));
      auto last = r.networks();
      lo = next(top);
      CHECKM(r.network_mask().is_valid() == (n == 1), "network mask exactly if the range is a network");
      if (n == 1)
        CHECK(all(r.network_mask() == net.mask(), g.network_mask() == net.mask()));
      // there must be no further network
      lo = {};
      hi = {};
      continue;
    }
    CHECKM(!(eq(hi, typename F::V{}) && n > 1), "no network after the last");
    lo = next(top);
  }
  return n;
}
HARNESS(h_nets_full)
{
  static const unsigned K = BOUND(4, 5);
  switch (sym_split(3, "kind")) {
  case 0: {
    static const unsigned at[] = {0, 1, 3, 8, 16, 27, 28};
    unsigned p = at[sym_split(7, "position")];
    if (p + K > 32)
      p = 32 - K;
    uint32_t a = sym_u32("a"), d = sym_u32("d");
    uint32_t lo = a & mask4(p + K), hi = (a & mask4(p)) | (d & ~mask4(p)) | ~mask4(p + K);
    ASSUME(lo <= hi);
    whole<F4>(lo, hi);
    break;
  }
  case 1: {
    static const unsigned at[] = {0, 1, 31, 60, 62, 64, 65, 100, 124};
    unsigned p = at[sym_split(9, "position")];
    if (p + K > 128)
      p = 128 - K;
    V6 a = any_v6("a"), d = any_v6("d"), m = mask6(p), k = mask6(p + K);
    V6 b{(a.hi & m.hi) | (d.hi & ~m.hi), (a.lo & m.lo) | (d.lo & ~m.lo)};
    V6 lo = lo_of(a, k), hi = hi_of(b, k);
    ASSUME(le(lo, hi));
    whole<F6>(lo, hi);
    break;
  }
  case 2: {
    unsigned x = sym_split(2, "first"), y = sym_split(2, "last"), f = sym_split(2, "family");
    unsigned n = f ? whole<F4>(x, ~0u - y) : whole<F6>({0, x}, {~0ull, ~0ull - y}), w = f ? 32 : 128;
    CHECK(n == (x && y ? 2 * w - 2 : x || y ? w : 1));
    IPRange none;
    CHECK(none.networks() == none.networks().end());
    IP4Range e4;
    IP6Range e6;
    CHECK(all(e4.networks().empty(), e6.networks().empty(), e4.networks() == e4.networks().end(), e6.networks() == e6.networks().end()));
    CHECK(all(!e4.network_mask().is_valid(), !e6.network_mask().is_valid(), !none.network_mask().is_valid()));
    IPRange r(A4(1), A4(2));
    auto s = r.networks(), t = s++;
    CHECK(all(t.addr() == IPAddr(A4(1)), s.addr() == IPAddr(A4(2)), t->mask().width() == 32));
    break;
  }
  }
  REACH("done");
}
// ---- networks
template <typename F> static void check_net(typename F::Net const &n, typename F::V v, unsigned w)
{
  w = sym_concrete(w);
  auto m = F::mask(w);
  CHECK(!n.empty());
  CHECKM(all(n.mask().is_valid(), n.mask().width() == w), "the mask");
  CHECKM(eq(value_of(n.min()), lo_of(v, m)), "host bits of the address are cleared");
  CHECKM(eq(value_of(n.max()), hi_of(v, m)), "last address");
  typename F::Range r = n.as_range();
  CHECKM(all(eq(value_of(r.min()), lo_of(v, m)), eq(value_of(r.max()), hi_of(v, m))), "as range");
}
template <typename F> static void check_net(IPNet const &n, typename F::V v, unsigned w)
{
  w = sym_concrete(w);
  auto m = F::mask(w);
  CHECK(all(!n.empty(), n.mask().width() == w, n.width() == w));
  CHECK(all(n.min() == IPAddr(F::addr(lo_of(v, m))), n.max() == IPAddr(F::addr(hi_of(v, m)))));
  IPRange r = n.as_range();
  CHECK(r == IPRange(F::addr(lo_of(v, m)), F::addr(hi_of(v, m))));
  CHECK(all(n.is_ip4() == (F::WIDTH == 32), n.is_ip6() == (F::WIDTH == 128), n.family() == (F::WIDTH == 32 ? AF_INET : AF_INET6)));
}
template <typename F> static void net()
{
  auto v = F::any("v"), u = F::any("u");
  unsigned w = sym_pick(F::WIDTH + 1, "width"), x = sym_pick(3, "other");
  x = x == 0 ? w : x == 1 ? (w ? w - 1 : 1) : F::WIDTH / 2;
  typename F::Net n{F::addr(v), IPMask(w)}, o{F::addr(u), IPMask(x)}, e, a;
  check_net<F>(n, v, w);
  CHECK(e.empty());
  CHECK(&a.assign(F::addr(v), IPMask(w)) == &a);
  check_net<F>(a, v, w);
  CHECK(all(a == n, !(a != n)));
  bool same = all(w == x, eq(lo_of(u, F::mask(w)), lo_of(v, F::mask(w))));
  CHECK(all((n == o) == same, (n != o) == !same));
  IPNet g{IPAddr(F::addr(v)), IPMask(w)}, h{IPAddr(F::addr(u)), IPMask(x)}, ge, ga;
  check_net<F>(g, v, w);
  CHECK(ge.empty());
  CHECK(&ga.assign(IPAddr(F::addr(v)), IPMask(w)) == &ga);
  check_net<F>(ga, v, w);
  CHECK(all((g == h) == same, (g != h) == !same));
  CHECK(all((g == o) == same, (o == g) == same));
  if constexpr (F::WIDTH == 32) {
    CHECK(g.ip4() == n);
    CHECK(!any(g == IP6Net(A6({}), IPMask(w)), IP6Net(A6({}), IPMask(w)) == g));
  } else {
    CHECK(g.ip6() == n);
    CHECK(!any(g == IP4Net(A4({}), IPMask(w)), IP4Net(A4({}), IPMask(w)) == g));
  }
  auto [na, nm] = n;
  auto [ga2, gm] = g;
  CHECKM(all(na == n.min(), nm == n.mask(), ga2 == g.min(), gm == g.mask()), "destructuring");
  // a network is the only network of its range
  auto src = n.as_range().networks();
  CHECK(*src == n);
  CHECK(++src == src.end());
  CHECK(&a.clear() == &a);
  CHECK(&ga.clear() == &ga);
  CHECK(all(a.empty(), ga.empty()));
}
HARNESS(h_net4)
{
  net<F4>();
  REACH("done");
}
HARNESS(h_net6)
{
  net<F6>();
  REACH("done");
}
// What a text means as a network
template <typename F> struct NetMeaning {
  bool ok = false;
  typename F::V addr{};
  unsigned width = 0;
  explicit NetMeaning(TextView v)
  {
    // the last slash; there must not be another one as that is part of neither an address nor a mask
    unsigned i = first_of(v, "/"), n = v.size();
    if (i == n)
      return;
    TextView left(v.data(), i), right(v.data() + i + 1, n - i - 1);
    typename F::Addr a, m;
    if (!left.empty() && !right.empty() && a.load(left)) {
      addr = value_of(a);
      if (IPMask k; k.load(right)) {
        width = k.width();
        ok    = width <= F::WIDTH;
      } else if (m.load(right)) {
        for (unsigned w = 0; w <= F::WIDTH; ++w) {
          bool is = eq(value_of(m), F::mask(w));
          width   = is ? w : width;
          ok      = any(ok, is);
        }
      }
    }
  }
};
template <typename F> static void check_loaded(typename F::Net const &r, bool ok, NetMeaning<F> const &m)
{
  CHECKM(ok == m.ok, "text accepted exactly if it denotes a network");
  if (m.ok)
    check_net<F>(r, m.addr, m.width);
  else
    CHECKM(r.empty(), "no network if it is not accepted");
}
static void check_text(TextView v)
{
  IP4Net n4{A4(0x01020300), IPMask(24)};
  IP6Net n6{A6({1, 2}), IPMask(127)};
  bool ok4 = n4.load(v), ok6 = n6.load(v);
  IPNet g{IPAddr(A4(0x01020300)), IPMask(24)};
  bool ok = g.load(v);
  NetMeaning<F4> m4(v);
  NetMeaning<F6> m6(v);
  check_loaded<F4>(n4, ok4, m4);
  check_loaded<F6>(n6, ok6, m6);
  CHECKM(ok == (m4.ok || m6.ok), "text accepted exactly if it denotes a network of either family");
  if (m4.ok)
    check_net<F4>(g, m4.addr, m4.width);
  else if (m6.ok)
    check_net<F6>(g, m6.addr, m6.width);
  else
    CHECKM(g.empty(), "no network if it is not accepted");
}
HARNESS(h_net_any)
{
  unsigned n = sym_split(BOUND(5, 6) + 1, "len");
  Txt t;
  put_any(t, n, "0139./:F- \x80");
  with_text(t, check_text);
  REACH("done");
}
HARNESS(h_net_text)
{
  static const char *shapes[] = {
    "10.1.2.3/#", "10.1.2.3/##", "10.1.2.3/1##", "10.#.#.3/8", "10.1.2.3/?", "10.1.2.3/2?", "10.1.2.3/255.255.2##.0", "10.1.2.3/255.2##.0.0", "10.1.2.3/2##.0.0.0", "10.1.2.3/255.255.255.2##", "10.1.2.3/0.0.0.#", "10.1.2.3/255.255.#.255",
    "10.1.2.3/::", "10.1.2.3/FFFF::", "10.1.2.3/", "/2#", "10.1.2.3", "10.1.2.3/2#/2#", "?/8", "0/#",
    "1:2:3:4:5:6:7:8/#", "1:2:3:4:5:6:7:8/##", "1:2:3:4:5:6:7:8/12#", "1:2::#/1##", "1:2::/FFFF:F#00::", "1:2::/?000::", "1:2::/FFFF:FFFF:FFFF:FFFF:?000::", "1:2::/FFFF:FFFF:FFFF:FFFF:FFFF:FFFF:FFFF:FFF?", "1:2::/::#", "1:2::/255.0.0.0",
    "::?/64", "1:2::/", "1:2::", "::/0?",
  };
  unsigned s = sym_split(sizeof(shapes) / sizeof(shapes[0]), "shape");
  Txt t;
  put_shape(t, shapes[s]);
  with_text(t, check_text);
  REACH("done");
}
template <typename F> static void net_print(typename F::Addr base)
{
  unsigned w = sym_pick(F::WIDTH + 1, "width");
  if (F::WIDTH == 128 && (w & 15) != 0 && w != 1 && w != 63 && w != 65 && w != 127 && w != 100)
    return;
  typename F::Net n{base, IPMask(w)};
  Txt want, t, t2;
  print(want, n.min());
  want.put('/');
  put_num(want, w);
  print(t, n);
  print(t2, IPNet(IPAddr(base), IPMask(w)));
  CHECKM(all(same_text(t.view(), want.view()), same_text(t2.view(), want.view())), "address and width");
  typename F::Net back;
  with_text(t, [&](TextView v) { CHECK(back.load(v)); });
  CHECKM(back == n, "the text loads back to the network");
  IPNet g(t.view());
  CHECK(g == n);
}
HARNESS(h_net_print)
{
  if (sym_split(2, "family")) {
    unsigned pos;
    net_print<F4>(base4(pos));
  } else
    net_print<F6>(base6());
  REACH("done");
}
