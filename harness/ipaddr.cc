// IP addresses: text in both directions, ordering and arithmetic as integers, masks, classification.
//@ entry h_ip4_any props=I01 shards=64 time=600 : IPv4 parsing of every text of 0..7 (thorough 8) bytes over digits 0 1 7 8 9 5, '.', 'x', 'a', 'F', ']', '-', ':' and one byte above 127, with optional leading / trailing blanks and brackets
//@ entry h_ip4_parts props=I01 shards=64 time=600 : IPv4 parsing of 1..5 parts, one of them (each in turn) decimal of 1..3 (last: 1..10, thorough 11), octal or hexadecimal of up to 4 (last: up to 12 / 9) arbitrary digits (decimal: all but the last 4 those of the greatest possible value), the others one of 3 constants, with optional brackets
//@ entry h_ip4_print props=I01 shards=32 time=600 : printing of every IPv4 address with two arbitrary octets (each pair of positions, the others from 3 constants), plain, zero filled, hexadecimal, and loading the text again
//@ entry h_ip6_any props=I02 shards=64 time=600 : IPv6 parsing of every text of 0..7 (thorough 8) bytes over digits 0 1 9, 'a', 'F', ':', '.', '[', ']', '-', '+', 'g', 'x' and one byte above 127
//@ entry h_ip6_groups props=I02 shards=64 time=600 : IPv6 parsing of 0..9 groups before and after an optional '::', the first, last and a middle group in turn of 1..5 arbitrary hexadecimal digits of either case, with optional blanks and brackets, leading / trailing single ':' and second '::'
//@ entry h_ip6_print props=I02 shards=64 time=600 : printing of IPv6 addresses with every pattern of zero groups, one group (first, last, middle in turn) arbitrary, the others constants, plain and zero filled, and loading the text again
//@ entry h_ip_text props=I01,I02 shards=8 : family independent parsing of dotted and colon separated text in 24 shapes with two arbitrary digits
//@ entry h_ip4_int props=I03 shards=8 : all IPv4 addresses (pairs): comparison, increment, decrement, and, or, shifts by 0..40, octets, byte order conversions
//@ entry h_ip6_int props=I03 shards=8 : all IPv6 addresses (pairs): the same, shifts by 0..140, as spans, IPv4 mapped
//@ entry h_ip_order props=I03 shards=8 : all pairs and triples of family independent addresses of the three kinds
//@ entry h_mask props=I04 shards=8 : masks of every width applied to every address, mask of every address, width changes
//@ entry h_mask_text props=I04 shards=8 : mask text of 0..4 (thorough 5) arbitrary bytes
//@ entry h_ip_class props=I11 shards=8 : classification of every IPv4 and IPv6 address in every representation
//@ srcs: swoc_ip TextView bw_format bw_ip_format MemArena RBTree string_view_util
#include <initializer_list>
#include "vf.h"
#include "swoc/swoc_ip.h"
#include "swoc/bwf_ip.h"
#include "swoc/TextView.h"
using swoc::BufferWriter;
using swoc::FixedBufferWriter;
using swoc::IP4Addr;
using swoc::IP6Addr;
using swoc::IPAddr;
using swoc::IPEndpoint;
using swoc::IPMask;
using swoc::TextView;
using swoc::bwf::Spec;

template <typename F> static void with_text(char const *s, size_t n, F f)
{
  Block b(n);
  if (n)
    memcpy(b.p, s, n);
  f(TextView(b.p, n));
}
struct Txt {
  char c[96];
  unsigned n = 0;
  void put(char ch) { c[n++] = ch; }
  void put(char const *s) { while (*s) put(*s++); }
  TextView view() const { return {c, n}; }
};
// ---- IPv4 text
// What a text means as an IPv4 address.
enum Verdict { NO, YES, UNSPEC };
static unsigned val(unsigned char c)
{
  unsigned r = 99;
  r = all(c >= '0', c <= '9') ? c - '0' : r;
  r = all(c >= 'a', c <= 'f') ? c - 'a' + 10 : r;
  r = all(c >= 'A', c <= 'F') ? c - 'A' + 10 : r;
  return r;
}
// body: text without blanks and brackets
static Verdict ref_ip4(char const *p, unsigned n, uint32_t &out)
{
  unsigned parts = 1;
  for (unsigned i = 0; i < n; ++i)
    if (p[i] == '.')
      ++parts;
  uint64_t acc = 0;
  unsigned i   = 0;
  for (unsigned k = 0; k < parts; ++k) {
    unsigned b = i;
    while (i < n && p[i] != '.')
      ++i;
    unsigned e = i++;
    if (b == e)
      return NO;
    unsigned radix = 10;
    if (p[b] == '0') {
      radix = 8;
      if (b + 1 < e && any(p[b + 1] == 'x', p[b + 1] == 'X')) {
        radix = 16;
        b += 2;
        if (b == e)
          return UNSPEC; // no digits
      } else if (b + 1 < e && any(p[b + 1] == 'b', p[b + 1] == 'B'))
        return UNSPEC; // binary
    }
    uint64_t v = 0;
    for (; b < e; ++b) {
      unsigned d = val(p[b]);
      if (d >= radix)
        return NO;
      v = v * radix + d;
      if (v > 0xFFFFFFFF)
        v = 0x1FFFFFFFF;
    }
    if (parts > 4)
      continue;
    if (k + 1 < parts) {
      if (v > 255)
        return NO;
      acc += v << (24 - 8 * k);
    } else {
      if (v >= uint64_t(1) << (32 - 8 * k))
        return NO;
      acc += v;
    }
  }
  if (parts > 4)
    return NO;
  out = acc;
  return YES;
}
static void check_ip4(TextView t, Verdict v, uint32_t want, unsigned stale)
{
  IP4Addr a{in_addr_t(stale)};
  bool ok = a.load(t);
  if (v == UNSPEC)
    return;
  CHECKM(ok == (v == YES), "text accepted exactly if it is an address");
  CHECKM(a.host_order() == (v == YES ? want : 0), "the address, or any if invalid");
  IP4Addr b{t};
  CHECK(b.host_order() == a.host_order());
}
HARNESS(h_ip4_any)
{
  static const char set[] = "01789.xaF5]-:\x80";
  static const int MAXN = BOUND(7, 8);
  unsigned wrap = sym_split(4, "wrap");
  unsigned n = sym_split(MAXN + 1, "len");
  Txt t;
  static const char *pre[] = {"", "  ", "[", "\t["}, *post[] = {"", " ", "]", "]\n"};
  t.put(pre[wrap]);
  unsigned b = t.n;
  for (unsigned i = 0; i < n; ++i) {
    char c = sym_u8("c");
    bool in = false;
    for (unsigned k = 0; k + 1 < sizeof(set); ++k)
      in = any(in, c == set[k]);
    ASSUME(in);
    t.put(c);
  }
  unsigned e = t.n;
  t.put(post[wrap]);
  with_text(t.c, t.n, [&](TextView v) {
    IP4Addr a{in_addr_t(0x7F000001)};
    bool ok = a.load(v);
    uint32_t want = 0;
    Verdict x = ref_ip4(t.c + b, e - b, want);
    if (x == UNSPEC)
      return;
    CHECKM(ok == (x == YES), "text accepted exactly if it is an address");
    CHECKM(a.host_order() == (x == YES ? want : 0), "the address, or any if invalid");
  });
  REACH("done");
}
HARNESS(h_ip4_parts)
{
  static const int LAST[] = {BOUND(10, 11), 12, 9}; // digits in the last part: decimal, octal, hexadecimal (with prefix)
  unsigned parts = 1 + sym_split(5, "parts");
  unsigned which = sym_split(parts, "which");
  bool last      = which + 1 == parts;
  unsigned kind  = sym_split(3, "kind");
  unsigned nd    = 1 + sym_split(last ? LAST[kind] : kind == 0 ? 3 : 4, "digits");
  unsigned others = sym_pick(3, "others");
  if (nd > 4 && parts > 1 && others != parts % 3)
    sym_stop(); // one choice of the other parts for long numbers
  static const char *fixed[3][5] = {{"1", "0", "255", "0", "7"}, {"0xff", "010", "9", "0x0", "3"}, {"192", "168", "1", "10", "1"}};
  static const uint32_t value[3][5] = {{1, 0, 255, 0, 7}, {255, 8, 9, 0, 3}, {192, 168, 1, 10, 1}};
  Txt t;
  static const uint8_t limit[4][6] = {{4, 2, 9, 4, 9, 6}, {1, 6, 7, 7, 7, 2}, {6, 5, 5, 3, 5, 0}, {2, 5, 5, 0, 0, 0}}; // digits of the greatest values
  bool bracket = others == 1;
  if (bracket)
    t.put('[');
  bool ok = parts <= 4;
  uint64_t acc = 0;
  for (unsigned i = 0; i < parts; ++i) {
    if (i)
      t.put('.');
    uint64_t v = 0;
    if (i != which) {
      t.put(fixed[others][i]);
      v = value[others][i];
    } else {
      if (kind)
        t.put('0');
      if (kind == 2)
        t.put(others ? 'x' : 'X');
      unsigned radix = kind == 0 ? 10 : kind == 1 ? 8 : 16;
      for (unsigned k = 0; k < nd; ++k) {
        unsigned d = sym_u8("d");
        if (kind == 0 && k == 0 && nd > 1)
          ASSUME(d >= 1);
        if (kind == 0 && k == 0 && nd == 1)
          ASSUME(d >= 0);
        ASSUME(d < radix);
        if (kind == 0 && k + 4 < nd && k < 6)
          d = limit[i < 4 ? i : 3][k];
        char c = d < 10 ? '0' + d : (k & 1 ? 'A' : 'a') + d - 10;
        t.put(c);
        v = v * radix + d;
      }
    }
    if (i < 4) {
      ok = all(ok, i + 1 < parts ? v <= 255 : v < uint64_t(1) << (32 - 8 * i));
      acc += i + 1 < parts ? v << (24 - 8 * i) : v;
    }
  }
  if (bracket)
    t.put(']');
  with_text(t.c, t.n, [&](TextView v) {
    IP4Addr a{in_addr_t(0x7F000001)};
    bool r = a.load(v);
    CHECKM(r == ok, "text accepted exactly if it is an address");
    CHECKM(a.host_order() == (ok ? uint32_t(acc) : 0), "the address, or any if invalid");
    IP4Addr b{v};
    CHECK(b == a);
  });
  REACH("done");
}
static void ref_dec(Txt &t, unsigned v)
{
  if (v >= 100)
    t.put('0' + v / 100);
  if (v >= 10)
    t.put('0' + v / 10 % 10);
  t.put('0' + v % 10);
}
static bool same(char const *p, size_t n, Txt const &t)
{
  bool r = n == t.n;
  for (unsigned i = 0; i < t.n && i < n; ++i)
    r = all(r, p[i] == t.c[i]);
  return r;
}
HARNESS(h_ip4_print)
{
  static const unsigned P[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
  unsigned pair = sym_split(6, "pair"), mode = sym_split(4, "mode"), c = sym_split(3, "const");
  static const uint8_t consts[] = {0, 10, 255};
  uint8_t o[4];
  uint32_t host = 0;
  for (unsigned i = 0; i < 4; ++i) {
    o[i] = i == P[pair][0] || i == P[pair][1] ? sym_u8("octet") : consts[c];
    host = host << 8 | o[i];
  }
  Spec spec;
  if (mode == 1)
    spec._ext = TextView("=");
  else if (mode == 2)
    spec._ext = TextView(" =");
  else if (mode == 3)
    spec._type = 'x';
  Block buf(15);
  FixedBufferWriter w(buf.p, buf.n);
  IP4Addr a{in_addr_t(host)};
  if (c == 1)
    bwformat(w, spec, IPAddr(a));
  else
    bwformat(w, spec, a);
  Txt t;
  for (unsigned i = 0; i < 4; ++i) {
    if (i)
      t.put('.');
    if (mode == 1 || mode == 2) {
      char f = mode == 1 ? '0' : ' ';
      t.put(o[i] >= 100 ? char('0' + o[i] / 100) : f);
      t.put(o[i] >= 10 ? char('0' + o[i] / 10 % 10) : f);
      t.put('0' + o[i] % 10);
    } else if (mode == 3) {
      if (o[i] >= 16)
        t.put("0123456789abcdef"[o[i] >> 4]);
      t.put("0123456789abcdef"[o[i] & 15]);
    } else
      ref_dec(t, o[i]);
  }
  CHECK(w.extent() == t.n);
  CHECKM(same(w.data(), w.size(), t), "octets in order, separated by dots");
  if (mode == 0) {
    IP4Addr b{in_addr_t(1)};
    CHECKM(b.load(w.view()), "printed text is an address");
    CHECKM(b.host_order() == host, "printed text is the address");
    IPAddr g;
    CHECK(g.load(w.view()));
    CHECK(g.is_ip4());
    CHECK(g.ip4().host_order() == host);
  }
  REACH("done");
}
// ---- IPv6 text
struct V6 {
  uint64_t hi = 0, lo = 0;
};
static V6 value_of(IP6Addr const &a)
{
  V6 v;
  in6_addr n = a.network_order();
  for (unsigned i = 0; i < 8; ++i)
    v.hi = v.hi << 8 | n.s6_addr[i], v.lo = v.lo << 8 | n.s6_addr[8 + i];
  return v;
}
static bool eq(V6 a, V6 b) { return all(a.hi == b.hi, a.lo == b.lo); }
static in6_addr net_of(V6 v)
{
  in6_addr n;
  for (unsigned i = 0; i < 8; ++i)
    n.s6_addr[i] = v.hi >> (56 - 8 * i), n.s6_addr[8 + i] = v.lo >> (56 - 8 * i);
  return n;
}
static V6 of_groups(unsigned const *g)
{
  V6 v;
  for (unsigned i = 0; i < 4; ++i)
    v.hi = v.hi << 16 | g[i], v.lo = v.lo << 16 | g[4 + i];
  return v;
}
// body: text without blanks and brackets. Groups of more than 4 digits with a small value are not specified.
static Verdict ref_ip6(char const *p, unsigned n, V6 &out)
{
  unsigned before[9] = {}, after[9] = {};
  unsigned nb = 0, na = 0;
  bool zip = false, unspec = false;
  unsigned i = 0;
  if (n == 0)
    return NO;
  if (p[0] == ':') {
    if (n < 2 || p[1] != ':')
      return NO;
    zip = true;
    i   = 2;
  }
  while (i < n) {
    unsigned v = 0, nd = 0;
    while (i < n && p[i] != ':') {
      unsigned d = val(p[i]);
      if (d > 15)
        return NO;
      v = v * 16 + d;
      ++nd;
      ++i;
    }
    if (nd == 0)
      return NO;
    if (v > 0xFFFF)
      return NO;
    if (nd > 4)
      unspec = true;
    if (nb + na == 8)
      return NO;
    (zip ? after[na++] : before[nb++]) = v;
    if (i < n) { // separator
      ++i;
      if (i == n)
        return NO; // single ':' at the end
      if (p[i] == ':') {
        if (zip)
          return NO;
        zip = true;
        ++i;
      }
    }
  }
  if (zip ? nb + na > 7 : nb != 8)
    return NO;
  if (unspec)
    return UNSPEC;
  unsigned g[8] = {};
  for (unsigned k = 0; k < nb; ++k)
    g[k] = before[k];
  for (unsigned k = 0; k < na; ++k)
    g[8 - na + k] = after[k];
  out = of_groups(g);
  return YES;
}
static V6 const STALE{0x0123456789abcdef, 0xfedcba9876543210};
static void check_ip6(TextView v, Verdict x, V6 want)
{
  IP6Addr a{net_of(STALE)};
  bool ok = a.load(v);
  if (x == UNSPEC)
    return;
  CHECKM(ok == (x == YES), "text accepted exactly if it is an address");
  CHECKM(eq(value_of(a), x == YES ? want : V6{}), "the address, or any if invalid");
  IP6Addr b{v};
  CHECK(a == b);
}
HARNESS(h_ip6_any)
{
  static const char set[] = "019aF:.[]-+gx\x80";
  static const int MAXN = BOUND(7, 8);
  unsigned n = sym_split(MAXN + 1, "len");
  Txt t;
  for (unsigned i = 0; i < n; ++i) {
    char c = sym_u8("c");
    bool in = false;
    for (unsigned k = 0; k + 1 < sizeof(set); ++k)
      in = any(in, c == set[k]);
    ASSUME(in);
    t.put(c);
  }
  with_text(t.c, t.n, [&](TextView v) {
    IP6Addr a{net_of(STALE)};
    bool ok = a.load(v);
    unsigned b = 0, e = n;
    Verdict x = NO;
    V6 want;
    if (n && t.c[0] == '[') {
      if (n > 1 && t.c[n - 1] == ']')
        x = ref_ip6(t.c + 1, n - 2, want);
    } else
      x = ref_ip6(t.c, n, want);
    if (x == UNSPEC)
      return;
    CHECKM(ok == (x == YES), "text accepted exactly if it is an address");
    CHECKM(eq(value_of(a), x == YES ? want : V6{}), "the address, or any if invalid");
  });
  REACH("done");
}
HARNESS(h_ip6_groups)
{
  unsigned nb = sym_split(10, "before"), zip = sym_split(2, "zip"), na = 0;
  if (zip)
    na = sym_split(10 - nb, "after");
  unsigned total = nb + na;
  unsigned flaw  = sym_pick(4, "flaw"); // none, leading ':', trailing ':', second '::'
  unsigned which = sym_pick(3, "which"), sg = which == 0 ? 0 : which == 1 ? total - 1 : total / 2;
  if (total < 3 && which > 0)
    sym_stop();
  unsigned nd = total ? 1 + sym_pick(5, "digits") : 0;
  if (flaw && nd > 1)
    sym_stop();
  static const char *fixed[] = {"1", "fe80", "0", "0a0b", "FFFF", "c", "20", "777", "0000"};
  static const unsigned value[] = {1, 0xfe80, 0, 0xa0b, 0xFFFF, 0xc, 0x20, 0x777, 0};
  unsigned wrap = nd % 3;
  Txt t;
  if (wrap)
    t.put(wrap == 1 ? "[" : " [");
  if (flaw == 1)
    t.put(':');
  unsigned g[8] = {};
  Verdict x = zip ? (total <= 7 ? YES : NO) : (total == 8 ? YES : NO);
  if (flaw)
    x = NO;
  bool big = false, unspec = false;
  for (unsigned k = 0; k < total; ++k) {
    if (zip && k == nb)
      t.put("::");
    else if (k)
      t.put(':');
    unsigned v;
    if (k == sg) {
      v = 0;
      for (unsigned i = 0; i < nd; ++i) {
        unsigned d = sym_u8("d");
        ASSUME(d < 16);
        t.put(d < 10 ? '0' + d : ((i ^ k) & 1 ? 'A' : 'a') + d - 10);
        v = v * 16 + d;
      }
      big    = v > 0xFFFF;
      unspec = all(nd > 4, !big);
    } else {
      t.put(fixed[k]);
      v = value[k];
    }
    if (total <= 8)
      g[k < nb ? k : 8 - na + (k - nb)] = v;
    if (flaw == 3 && zip && k + 1 == total)
      t.put("::");
  }
  if (zip && nb == total)
    t.put("::");
  if (flaw == 2)
    t.put(':');
  if (flaw == 3 && !(zip && total))
    sym_stop();
  if (wrap)
    t.put(wrap == 1 ? "]" : "]\t");
  V6 want = of_groups(g);
  with_text(t.c, t.n, [&](TextView v) {
    IP6Addr a{net_of(STALE)};
    bool ok = a.load(v);
    bool good = all(x == YES, !big);
    CHECKM(any(ok == good, unspec), "text accepted exactly if it is an address");
    CHECKM(any(eq(value_of(a), V6{good ? want.hi : 0, good ? want.lo : 0}), unspec), "the address, or any if invalid");
    IP6Addr b{v};
    CHECK(a == b);
  });
  REACH("done");
}
HARNESS(h_ip6_print)
{
  unsigned zeros = sym_split(256, "zeros"), mode = sym_pick(2, "mode");
  unsigned which = sym_pick(3, "which"), sg = which == 0 ? 0 : which == 1 ? 7 : 4;
  if (zeros >> sg & 1)
    sym_stop();
  static const unsigned fixed[] = {0xfe80, 1, 0xab, 0x777, 0xc, 0xffff, 0x20, 0xa0b};
  unsigned g[8];
  for (unsigned i = 0; i < 8; ++i) {
    g[i] = zeros >> i & 1 ? 0 : fixed[i];
    if (i == sg) {
      g[i] = sym_u16("group");
      ASSUME(g[i] != 0);
    }
  }
  V6 want = of_groups(g);
  IP6Addr a{net_of(want)};
  Spec spec;
  if (mode == 1)
    spec._ext = TextView("=");
  Block buf(39);
  FixedBufferWriter w(buf.p, buf.n);
  if (zeros & 1)
    bwformat(w, spec, IPAddr(a));
  else
    bwformat(w, spec, a);
  CHECKM(!w.error(), "at most 39 characters");
  if (mode == 1) {
    Txt t;
    for (unsigned i = 0; i < 8; ++i) {
      if (i)
        t.put(':');
      for (int s = 12; s >= 0; s -= 4)
        t.put("0123456789abcdef"[g[i] >> s & 15]);
    }
    CHECKM(same(w.data(), w.size(), t), "all groups with four digits");
  }
  IP6Addr b{net_of(STALE)};
  CHECKM(b.load(w.view()), "printed text is an address");
  CHECKM(eq(value_of(b), want), "printed text is the address");
  IPAddr g2;
  CHECK(g2.load(w.view()));
  CHECK(g2.is_ip6());
  CHECK(g2.ip6() == a);
  REACH("done");
}
// ---- either family
HARNESS(h_ip_text)
{
  static const struct {
    const char *text; // '#' stands for an arbitrary digit
    int family;       // 4, 6 or 0
  } shapes[] = {
    {"1#.2.3.#", 4}, {"#.0.0.1#", 4}, {"1#2.255.255.1#", 4}, {" 1#.2.3.# ", 4}, {"[1#.2.3.#]", 4}, {"1.#.#.4.5", 0}, {"1#.2.3.#z", 0}, {"1#.2.3.", 0},
    {"1#.2.3.#.", 0}, {"[1#.2.3.#", 0}, {"1#.2.3.#]", 0}, {"..#.#", 0}, {"1..#.#", 0},
    {"::#", 6}, {"#::#", 6}, {"[#::a#]", 6}, {" fe80::#:#", 6}, {"ffff:1:2:3:4:5:#:#", 6}, {"1:2:3:4:5:6:7:8:#", 0}, {"1::2::#", 0}, {"[#::#", 0}, {"#::#]", 0}, {":#:#::", 0}, {"#:#::zz", 0}, {"##", 9}, {"", 0}, {"abc", 0}, {"ho#t", 0},
  };
  unsigned s = sym_split(sizeof(shapes) / sizeof(shapes[0]), "shape");
  Txt t;
  for (const char *p = shapes[s].text; *p; ++p) {
    char c = *p;
    if (c == '#') {
      c = sym_u8("digit");
      ASSUME(all(c >= '0', c <= '9'));
    }
    t.put(c);
  }
  with_text(t.c, t.n, [&](TextView v) {
    IPAddr a{IP4Addr(in_addr_t(7))}, b{v};
    bool ok = a.load(v);
    CHECK(ok == a.is_valid());
    CHECK(a == b);
    IP4Addr a4;
    IP6Addr a6;
    switch (shapes[s].family) {
    case 4:
      if (a4.load(v)) { // a leading zero makes it octal
        CHECK(ok);
        CHECK(a.is_ip4());
        CHECK(a.ip4() == a4);
      }
      break;
    case 6:
      CHECK(ok);
      CHECK(a.is_ip6());
      CHECK(a6.load(v));
      CHECK(a.ip6() == a6);
      CHECK(!a4.load(v));
      break;
    case 0:
      CHECKM(!ok, "not an address");
      CHECK(a == IPAddr::INVALID);
      CHECK(!a6.load(v));
      break;
    }
  });
  REACH("done");
}
// ---- integers
HARNESS(h_ip4_int)
{
  uint32_t x = sym_u32("x"), y = sym_u32("y");
  IP4Addr a{in_addr_t(x)}, b{in_addr_t(y)};
  CHECK(a.host_order() == x);
  CHECK(a.network_order() == __builtin_bswap32(x));
  CHECK(IP4Addr::reorder(x) == __builtin_bswap32(x));
  switch (sym_split(4, "what")) {
  case 0:
    CHECK(a.cmp(b) == (x > y) - (x < y));
    CHECK((a < b) == (x < y));
    CHECK((a <= b) == (x <= y));
    CHECK((a > b) == (x > y));
    CHECK((a >= b) == (x >= y));
    CHECK((a == b) == (x == y));
    CHECK((a != b) == (x != y));
    CHECK(all(IP4Addr::MIN <= a, a <= IP4Addr::MAX));
    CHECK(a.is_any() == (x == 0));
    CHECK(implies(x == y, std::hash<IP4Addr>()(a) == std::hash<IP4Addr>()(b)));
    break;
  case 1: {
    CHECK(&++a == &a);
    CHECK(a.host_order() == x + 1);
    CHECK(&--b == &b);
    CHECK(b.host_order() == y - 1);
    break;
  }
  case 2: {
    IP4Addr c = a, d = a;
    CHECK(&(c &= b) == &c);
    CHECK(c.host_order() == (x & y));
    CHECK(&(d |= b) == &d);
    CHECK(d.host_order() == (x | y));
    for (unsigned i = 0; i < 4; ++i)
      CHECK(a[i] == (x >> (24 - 8 * i) & 0xFF));
    IP4Addr e;
    CHECK(&(e = in_addr_t(y)) == &e);
    CHECK(e.network_order() == y);
    break;
  }
  case 3: {
    unsigned n = sym_pick(41, "n");
    IP4Addr c = a, d = a;
    CHECK(&(c <<= n) == &c);
    CHECKM(c.host_order() == (n < 32 ? x << n : 0), "left shift");
    CHECK(&(d >>= n) == &d);
    CHECKM(d.host_order() == (n < 32 ? x >> n : 0), "right shift");
    break;
  }
  }
  REACH("done");
}
static V6 any_v6(const char *name) { V6 v; v.hi = sym_u64(name); v.lo = sym_u64(name); return v; }
static bool lt(V6 a, V6 b) { return any(a.hi < b.hi, all(a.hi == b.hi, a.lo < b.lo)); }
static V6 shl(V6 v, unsigned n)
{
  if (n == 0)
    return v;
  if (n >= 128)
    return {};
  if (n >= 64)
    return {v.lo << (n - 64), 0};
  return {v.hi << n | v.lo >> (64 - n), v.lo << n};
}
static V6 shr(V6 v, unsigned n)
{
  if (n == 0)
    return v;
  if (n >= 128)
    return {};
  if (n >= 64)
    return {0, v.hi >> (n - 64)};
  return {v.hi >> n, v.lo >> n | v.hi << (64 - n)};
}
HARNESS(h_ip6_int)
{
  V6 x = any_v6("x"), y = any_v6("y");
  IP6Addr a{net_of(x)}, b{net_of(y)};
  CHECK(eq(value_of(a), x));
  switch (sym_split(5, "what")) {
  case 0:
    CHECK(a.cmp(b) == int(lt(y, x)) - int(lt(x, y)));
    CHECK((a < b) == lt(x, y));
    CHECK((a <= b) == !lt(y, x));
    CHECK((a > b) == lt(y, x));
    CHECK((a >= b) == !lt(x, y));
    CHECK((a == b) == eq(x, y));
    CHECK((a != b) == !eq(x, y));
    CHECK(all(IP6Addr::MIN <= a, a <= IP6Addr::MAX));
    CHECK(a.is_any() == eq(x, V6{}));
    CHECK(implies(eq(x, y), std::hash<IP6Addr>()(a) == std::hash<IP6Addr>()(b)));
    break;
  case 1: {
    CHECK(&++a == &a);
    CHECKM(eq(value_of(a), V6{x.hi + (x.lo + 1 == 0), x.lo + 1}), "increment");
    CHECK(&--b == &b);
    CHECKM(eq(value_of(b), V6{y.hi - (y.lo == 0), y.lo - 1}), "decrement");
    break;
  }
  case 2: {
    IP6Addr c = a, d = a;
    CHECK(&(c &= b) == &c);
    CHECK(eq(value_of(c), V6{x.hi & y.hi, x.lo & y.lo}));
    CHECK(&(d |= b) == &d);
    CHECK(eq(value_of(d), V6{x.hi | y.hi, x.lo | y.lo}));
    for (unsigned i = 0; i < 16; ++i)
      CHECK(a[i] == ((i < 8 ? x.hi : x.lo) >> (56 - 8 * (i & 7)) & 0xFF));
    in6_addr h = a.host_order(), n = net_of(x), h2, n2;
    a.host_order(h2);
    a.network_order(n2);
    bool ok = true;
    for (unsigned i = 0; i < 16; ++i)
      ok = all(ok, h.s6_addr[i] == n.s6_addr[15 - i], h2.s6_addr[i] == h.s6_addr[i], n2.s6_addr[i] == n.s6_addr[i]);
    CHECKM(ok, "host order is the reverse of network order");
    auto words = const_cast<IP6Addr const &>(a).as_span<uint64_t>();
    CHECK(all(words.size() == 2, words[0] == x.hi, words[1] == x.lo));
    CHECK(&b.clear() == &b);
    CHECK(b == IP6Addr{});
    break;
  }
  case 3: {
    unsigned n = sym_pick(141, "n");
    IP6Addr c = a, d = a;
    CHECK(&(c <<= n) == &c);
    CHECKM(eq(value_of(c), shl(x, n)), "left shift");
    CHECK(&(d >>= n) == &d);
    CHECKM(eq(value_of(d), shr(x, n)), "right shift");
    break;
  }
  case 4: {
    uint32_t v4 = sym_u32("v4");
    IP6Addr m{IP4Addr(in_addr_t(v4))};
    CHECKM(eq(value_of(m), V6{0, 0xFFFF00000000u | v4}), "IPv4 mapped address");
    CHECK(m.is_mapped_ip4());
    CHECK(a.is_mapped_ip4() == all(x.hi == 0, x.lo >> 32 == 0xFFFF));
    IP6Addr s;
    CHECK(&(s = net_of(y)) == &s);
    CHECK(s == b);
    break;
  }
  }
  REACH("done");
}
struct Any {
  IPAddr a;
  unsigned kind = 0; // invalid, IPv4, IPv6
  V6 v;
};
static Any any_addr(const char *name)
{
  Any r;
  r.kind = sym_pick(3, "kind");
  if (r.kind == 1) {
    r.v.lo = sym_u32(name);
    r.a    = IP4Addr(in_addr_t(r.v.lo));
  } else if (r.kind == 2) {
    r.v = any_v6(name);
    r.a = IP6Addr(net_of(r.v));
  } else if (sym_pick(2, "stale")) { // invalidated
    r.a = IP6Addr(net_of(any_v6(name)));
    CHECK(&r.a.invalidate() == &r.a);
  }
  return r;
}
static bool less(Any const &a, Any const &b) { return a.kind != b.kind ? a.kind < b.kind : lt(a.v, b.v); }
HARNESS(h_ip_order)
{
  Any a = any_addr("a"), b = any_addr("b");
  CHECK(a.a.is_valid() == (a.kind != 0));
  CHECK(a.a.is_ip4() == (a.kind == 1));
  CHECK(a.a.is_ip6() == (a.kind == 2));
  bool l = less(a, b), g = less(b, a);
  CHECK((a.a < b.a) == l);
  CHECK((a.a > b.a) == g);
  CHECK((a.a <= b.a) == !g);
  CHECK((a.a >= b.a) == !l);
  CHECK((a.a == b.a) == all(!l, !g));
  CHECK((a.a != b.a) == any(l, g));
  int c = a.a.cmp(b.a);
  CHECK(all((c < 0) == l, (c > 0) == g));
  CHECK(a.a.is_same_family(b.a) == all(a.kind != 0, a.kind == b.kind));
  CHECK(implies(all(!l, !g), std::hash<IPAddr>()(a.a) == std::hash<IPAddr>()(b.a)));
  if (b.kind == 1) {
    CHECK((a.a == b.a.ip4()) == all(!l, !g));
    CHECK((b.a.ip4() == a.a) == all(!l, !g));
    CHECK((a.a != b.a.ip4()) == any(l, g));
    CHECK((b.a.ip4() != a.a) == any(l, g));
  } else if (b.kind == 2) {
    CHECK((a.a == b.a.ip6()) == all(!l, !g));
    CHECK((b.a.ip6() == a.a) == all(!l, !g));
    CHECK((a.a != b.a.ip6()) == any(l, g));
    CHECK((b.a.ip6() != a.a) == any(l, g));
  }
  REACH("done");
}
// ---- masks
static V6 mask6(unsigned w) { return w >= 128 ? V6{~0ull, ~0ull} : w > 64 ? V6{~0ull, ~0ull << (128 - w)} : w == 64 ? V6{~0ull, 0} : w ? V6{~0ull << (64 - w), 0} : V6{}; }
static uint32_t mask4(unsigned w) { return w >= 32 ? ~0u : w ? ~0u << (32 - w) : 0; }
HARNESS(h_mask)
{
  unsigned w = sym_split(129, "width"), what = sym_pick(3, "what");
  IPMask m(w);
  CHECK(all(m.is_valid(), m.width() == w));
  if (what == 0) {
    CHECKM(m.as_ip4().host_order() == mask4(w), "IPv4 mask");
    CHECKM(eq(value_of(m.as_ip6()), mask6(w)), "IPv6 mask");
    IPMask inv;
    CHECK(!inv.is_valid());
    IPMask c = m;
    CHECK(&c.clear() == &c);
    CHECK(all(!c.is_valid(), c == inv, c != m));
    unsigned w2 = sym_u8("w2");
    ASSUME(w2 <= 128);
    IPMask m2(w2);
    CHECK((m == m2) == (w == w2));
    CHECK((m != m2) == (w != w2));
    CHECK((m < m2) == (w < w2));
    if (w2 <= w) {
      IPMask x = m;
      CHECK(&(x <<= w2) == &x);
      CHECKM(x.width() == w - w2, "extended");
    }
    if (w2 + w <= 128) {
      IPMask x = m;
      CHECK(&(x >>= w2) == &x);
      CHECKM(x.width() == w + w2, "narrowed");
    }
  } else if (what == 1) {
    uint32_t a = sym_u32("a");
    IP4Addr a4{in_addr_t(a)}, x = a4, y = a4;
    CHECK(&(x &= m) == &x);
    CHECKM(x.host_order() == (a & mask4(w)), "network part of an IPv4 address");
    CHECK((a4 & m) == x);
    CHECK(&(y |= m) == &y);
    CHECKM(y.host_order() == (a | ~mask4(w)), "broadcast address");
    CHECK((a4 | m) == y);
    IPAddr g(a4);
    CHECK((g & m) == x);
    CHECK((g | m) == y);
    V6 v = any_v6("v");
    IP6Addr a6{net_of(v)}, x6 = a6, y6 = a6;
    V6 k = mask6(w);
    CHECK(&(x6 &= m) == &x6);
    CHECKM(eq(value_of(x6), V6{v.hi & k.hi, v.lo & k.lo}), "network part of an IPv6 address");
    CHECK((a6 & m) == x6);
    CHECK(&(y6 |= m) == &y6);
    CHECKM(eq(value_of(y6), V6{v.hi | ~k.hi, v.lo | ~k.lo}), "last address of an IPv6 network");
    CHECK((a6 | m) == y6);
    IPAddr g6(a6);
    CHECK((g6 & m) == x6);
    CHECK((g6 | m) == y6);
    CHECK(!(IPAddr() & m).is_valid());
  } else {
    // the width of the largest network at an address with lowest set bit w - 1 from the top (none for 0)
    V6 v = any_v6("v"), k = mask6(w);
    ASSUME(all((v.hi & ~k.hi) == 0, (v.lo & ~k.lo) == 0)); // no bits beyond
    if (w > 64)
      ASSUME(v.lo >> (128 - w) & 1);
    else if (w)
      ASSUME(v.hi >> (64 - w) & 1);
    IP6Addr a6{net_of(v)};
    CHECKM(IPMask::mask_for(a6).width() == w, "mask for an IPv6 address");
    CHECK(IPMask::mask_for(IPAddr(a6)).width() == w);
    if (w <= 32) {
      IP4Addr a4{in_addr_t(v.hi >> 32)};
      CHECKM(IPMask::mask_for(a4).width() == w, "mask for an IPv4 address");
      CHECK(IPMask::mask_for(IPAddr(a4)).width() == w);
    }
    CHECK(!IPMask::mask_for(IPAddr()).is_valid());
  }
  REACH("done");
}
HARNESS(h_mask_text)
{
  static const int MAXN = BOUND(4, 5);
  unsigned n = sym_split(MAXN + 1, "len");
  Block b(n, "text");
  IPMask m(77);
  bool ok = m.load(TextView(b.p, n));
  bool digits = n > 0;
  unsigned v = 0;
  for (unsigned i = 0; i < n; ++i) {
    unsigned d = (unsigned char)b[i] - '0';
    digits = all(digits, d < 10);
    v = v * 10 + d;
  }
  if (n > 1 && b[0] == '0')
    return; // leading zero: not specified
  bool good = all(digits, v <= 128);
  if (n > 0 && any(b[0] == ' ', all(b[0] >= 9, b[0] <= 13)))
    return; // leading blank: not specified
  CHECKM(ok == good, "accepted exactly if it is a width");
  if (ok)
    CHECKM(m.width() == v, "width");
  REACH("done");
}
// ---- classification
HARNESS(h_ip_class)
{
  unsigned fam = sym_split(2, "family");
  if (fam == 0) {
    uint32_t x = sym_u32("x");
    bool loop = x >> 24 == 127, multi = x >> 28 == 14, ll = x >> 16 == 0xA9FE;
    bool priv = any(x >> 24 == 10, x >> 22 == (0x64400000 >> 22), x >> 20 == 0xAC1, x >> 16 == 0xC0A8);
    IP4Addr a{in_addr_t(x)};
    IPAddr g(a);
    uint32_t n = __builtin_bswap32(x);
    CHECK(a.is_any() == (x == 0));
    CHECK(all(a.is_loopback() == loop, g.is_loopback() == loop));
    CHECK(all(a.is_multicast() == multi, g.is_multicast() == multi));
    CHECK(all(a.is_link_local() == ll, g.is_link_local() == ll));
    CHECK(all(a.is_private() == priv, g.is_private() == priv));
    CHECK(all(swoc::ip::is_loopback_host_order(x) == loop, swoc::ip::is_loopback_network_order(n) == loop));
    CHECK(all(swoc::ip::is_multicast_host_order(x) == multi, swoc::ip::is_multicast_network_order(n) == multi));
    CHECK(all(swoc::ip::is_link_local_host_order(x) == ll, swoc::ip::is_link_local_network_order(n) == ll));
    CHECK(all(swoc::ip::is_private_host_order(x) == priv, swoc::ip::is_private_network_order(n) == priv));
    IPEndpoint ep;
    ep.assign(g, in_port_t(0));
    CHECK(all(swoc::ip::is_loopback(&ep.sa) == loop, swoc::ip::is_multicast(&ep.sa) == multi, swoc::ip::is_link_local(&ep.sa) == ll, swoc::ip::is_private(&ep.sa) == priv));
    CHECK(all(ep.is_loopback() == loop, ep.is_any() == (x == 0)));
  } else {
    V6 v = any_v6("v");
    bool loop = all(v.hi == 0, v.lo == 1), multi = v.hi >> 56 == 0xFF, ll = v.hi >> 54 == (0xFE80 >> 6), priv = v.hi >> 57 == (0xFC >> 1);
    IP6Addr a{net_of(v)};
    IPAddr g(a);
    in6_addr n = net_of(v);
    CHECK(a.is_any() == eq(v, V6{}));
    CHECK(all(a.is_loopback() == loop, g.is_loopback() == loop, swoc::ip::is_loopback_network_order(n) == loop));
    CHECK(all(a.is_multicast() == multi, g.is_multicast() == multi, swoc::ip::is_multicast_network_order(n) == multi));
    CHECK(all(a.is_link_local() == ll, g.is_link_local() == ll, swoc::ip::is_link_local_network_order(n) == ll));
    CHECK(all(a.is_private() == priv, g.is_private() == priv, swoc::ip::is_private_network_order(n) == priv));
    IPEndpoint ep;
    ep.assign(g, in_port_t(0));
    CHECK(all(swoc::ip::is_loopback(&ep.sa) == loop, swoc::ip::is_multicast(&ep.sa) == multi, swoc::ip::is_link_local(&ep.sa) == ll, swoc::ip::is_private(&ep.sa) == priv));
    CHECK(all(ep.is_loopback() == loop, ep.is_any() == eq(v, V6{})));
  }
  IPAddr inv;
  CHECK(!any(inv.is_loopback(), inv.is_multicast(), inv.is_link_local(), inv.is_private()));
  REACH("done");
}
