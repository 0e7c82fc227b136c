// Services (address and port) and socket address conversions.
//@ entry h_srv_token props=I08 shards=64 time=600 : splitting of every text of 0..6 (thorough 7) bytes over '0', '8', 'a', '.', ':', '[', ']', ' ', '-' and one byte above 127 in its exact memory; any subset of the results wanted (for texts of up to 3 bytes)
//@ entry h_srv_load props=I08 shards=64 time=600 : loading of 9 IPv4 and 10 IPv6 address texts (bracketed or not, with blanks, invalid ones) with no port or a port of 0..6 arbitrary digits (the first not zero), optionally followed by other text, into all service types and endpoints with any previous value
//@ entry h_srv_print props=I08 shards=16 time=600 : printing of services and endpoints with every port and 4 addresses (two arbitrary octets / one arbitrary group) of each family, and loading the text again
//@ entry h_srv_format props=I08 shards=16 : endpoint formatting with every combination of the address / port / family codes and fill, every port
//@ entry h_srv_format_more props=I08 shards=8 : endpoints and socket addresses of every family (16 bit) with every combination of address / port / family codes, family as name and number, pointer types; the family of every kind of address; addresses in fields of width 0, 25, 50
//@ entry h_srv_value props=I09 shards=16 : service construction, assignment, conversion and comparison for all addresses and ports
//@ entry h_srv_cross props=I09 shards=8 : equality of services, addresses, endpoints and socket addresses of every combination of families with each other, all addresses and ports
//@ entry h_endpoint props=I09 shards=16 : endpoint construction, assignment, copy and access for all addresses, ports, scope and flow values and families, from and to structures of exact size
//@ srcs: swoc_ip TextView bw_format bw_ip_format MemArena RBTree string_view_util
#include <new>
#include <stdexcept>
#include "vf.h"
#include "swoc/swoc_ip.h"
#include "swoc/bwf_ip.h"
#include "swoc/TextView.h"
using swoc::FixedBufferWriter;
using swoc::IP4Addr;
using swoc::IP4Srv;
using swoc::IP6Addr;
using swoc::IP6Srv;
using swoc::IPAddr;
using swoc::IPEndpoint;
using swoc::IPSrv;
using swoc::TextView;
using swoc::bwf::Spec;

struct Txt {
  char c[96];
  unsigned n = 0;
  void put(char ch) { c[n++] = ch; }
  void put(char const *s) { while (*s) put(*s++); }
  void dec(unsigned v, char fill = 0)
  {
    for (unsigned p = 10000; p > 1; p /= 10)
      if (v >= p)
        put('0' + v / p % 10);
      else if (fill)
        put(fill);
    put('0' + v % 10);
  }
};
template <typename F> static void with_text(Txt const &t, F f)
{
  Block b(t.n);
  if (t.n)
    memcpy(b.p, t.c, t.n);
  f(TextView(b.p, t.n));
}
static bool same(TextView v, Txt const &t)
{
  bool r = v.size() == t.n;
  for (unsigned i = 0; i < t.n && i < v.size(); ++i)
    r = all(r, v.data()[i] == t.c[i]);
  return r;
}
static in6_addr net6(uint64_t hi, uint64_t lo)
{
  in6_addr n;
  for (unsigned i = 0; i < 8; ++i)
    n.s6_addr[i] = hi >> (56 - 8 * i), n.s6_addr[8 + i] = lo >> (56 - 8 * i);
  return n;
}
static bool eq6(in6_addr const &a, in6_addr const &b)
{
  bool r = true;
  for (unsigned i = 0; i < 16; ++i)
    r = all(r, a.s6_addr[i] == b.s6_addr[i]);
  return r;
}
static in6_addr any6(const char *name)
{
  uint64_t hi = sym_u64(name);
  return net6(hi, sym_u64(name));
}
// ---- text
HARNESS(h_srv_token)
{
  static const char set[] = "08a.:[] -\x80";
  static const int MAXN = BOUND(6, 7);
  unsigned n = sym_split(MAXN + 1, "len");
  Block b(n);
  for (unsigned i = 0; i < n; ++i) {
    b[i] = sym_u8("c");
    bool in = false;
    for (unsigned k = 0; k + 1 < sizeof(set); ++k)
      in = any(in, b[i] == set[k]);
    ASSUME(in);
  }
  unsigned want = n <= 3 ? sym_pick(8, "want") : 7;
  std::string_view addr{"x"}, port{"y"}, rest{"z"};
  bool r = IPEndpoint::tokenize({b.p, n}, want & 1 ? &addr : nullptr, want & 2 ? &port : nullptr, want & 4 ? &rest : nullptr);
  // expected: begin and end of each part
  unsigned i = 0, a0, a1, p0 = 0, p1 = 0, r0, e = n;
  while (i < e && b[i] == ' ')
    ++i;
  bool colon = false;
  if (i < e && b[i] == '[') {
    a0 = a1 = i + 1;
    while (a1 < e && b[a1] != ']')
      ++a1;
    if (a1 == e)
      return; // no closing bracket: not specified
    r0 = a1 + 1;
    colon = r0 < e && b[r0] == ':';
  } else {
    unsigned count = 0, last = e;
    for (unsigned k = i; k < e; ++k)
      if (b[k] == ':')
        ++count, last = k;
    a0 = i;
    a1 = r0 = count == 1 ? last : e;
    colon = count == 1;
  }
  if (colon) {
    p0 = p1 = r0 + 1;
    while (p1 < e && all(b[p1] >= '0', b[p1] <= '9'))
      ++p1;
    if (p1 > p0)
      r0 = p1;
  }
  CHECKM(r == (a1 > a0), "address found exactly if there is one");
  if (a1 == a0)
    return;
  if (want & 1)
    CHECKM(all(addr.data() == b.p + a0, addr.size() == a1 - a0), "address");
  if (want & 2) {
    CHECKM(port.size() == p1 - p0, "port length");
    CHECKM(any(p1 == p0, port.data() == b.p + p0), "port");
  }
  if (want & 4) {
    CHECKM(rest.size() == e - r0, "rest length");
    CHECKM(any(r0 == e, rest.data() == b.p + r0), "rest");
  }
  REACH("done");
}
HARNESS(h_srv_load)
{
  static const struct {
    const char *text;
    unsigned family; // 0: invalid
    bool port;       // can be followed by a port
    uint64_t hi, lo;
  } addrs[] = {
    {"10.9.8.7", 4, true, 0, 0x0a090807},
    {"255.255.255.255", 4, true, 0, 0xffffffff},
    {"0.0.0.0", 4, true, 0, 0},
    {" 1.2.3.4", 4, true, 0, 0x01020304},
    {"1.2.3.256", 0, true, 0, 0},
    {"1.2.3.4.5", 0, true, 0, 0},
    {"1.2..4", 0, true, 0, 0},
    {"host.example", 0, true, 0, 0},
    {"", 0, true, 0, 0},
    {"[::1]", 6, true, 0, 1},
    {"[ffee:1f2d:c587:24c3:9128:3349:3cee:143]", 6, true, 0xffee1f2dc58724c3, 0x912833493cee0143},
    {" [::]", 6, true, 0, 0},
    {"fe80::8:1", 6, false, 0xfe80000000000000, 0x0000000000080001},
    {"1:2:3:4:5:6:7:8", 6, false, 0x0001000200030004, 0x0005000600070008},
    {"[1:2:3]", 0, true, 0, 0},
    {"[::g]", 0, true, 0, 0},
    {"[1::2::3]", 0, true, 0, 0},
    {"[]", 0, true, 0, 0},
    {"1:2:3:", 0, false, 0, 0},
  };
  unsigned k = sym_split(sizeof(addrs) / sizeof(addrs[0]), "addr");
  unsigned form = sym_split(addrs[k].port ? 10 : 1, "port"); // none, ':' and 1..6 digits, ':' only, ':' text, text
  Txt t;
  t.put(addrs[k].text);
  unsigned port = 0;
  bool good = addrs[k].family != 0;
  if (form >= 1 && form <= 6) {
    t.put(':');
    for (unsigned i = 0; i < form; ++i) {
      unsigned d = sym_u8("digit");
      ASSUME(d < 10);
      if (i == 0 && form > 1)
        ASSUME(d > 0);
      t.put('0' + d);
      port = port * 10 + d;
    }
    if (k % 3 == 1 && form == 3) {
      t.put('x');
      good = false;
    }
  } else if (form == 7) {
    t.put(":");
    good = false;
  } else if (form == 8) {
    t.put(":http");
    good = false;
  } else if (form == 9) {
    t.put("?1");
    good = false;
  }
  good = all(good, port <= 65535);
  IP4Srv s4(IP4Addr(in_addr_t(0x7f000001)), 99), o4 = s4;
  IP6Srv s6(IP6Addr(net6(1, 2)), 98), o6 = s6;
  unsigned stale = k % 3;
  IPSrv s;
  IPEndpoint ep;
  if (stale == 1) {
    s = s4;
    ep.assign(s4);
  } else if (stale == 2) {
    s = s6;
    ep.assign(s6);
  }
  in6_addr want6 = net6(addrs[k].hi, addrs[k].lo);
  with_text(t, [&](TextView v) {
    bool r4 = s4.load(v), r6 = s6.load(v), r = s.load(v), re = ep.parse(v);
    CHECKM(r == good, "generic service loaded exactly if the text is one");
    CHECKM(re == good, "endpoint parsed exactly if the text is a service");
    CHECKM(r4 == all(good, addrs[k].family == 4), "IPv4 service loaded exactly if the text is one");
    CHECKM(r6 == all(good, addrs[k].family == 6), "IPv6 service loaded exactly if the text is one");
    if (r4) {
      CHECK(all(s4.addr().host_order() == uint32_t(addrs[k].lo), s4.host_order_port() == port));
      CHECK(all(s.is_ip4(), s.ip4() == s4, s.host_order_port() == port));
      CHECK(all(ep.is_ip4(), ep.sa4.sin_addr.s_addr == __builtin_bswap32(addrs[k].lo), ep.host_order_port() == port));
      CHECK(IP4Srv(v) == s4);
    }
    if (r6) {
      CHECK(all(eq6(s6.addr().network_order(), want6), s6.host_order_port() == port));
      CHECK(all(s.is_ip6(), s.ip6() == s6, s.host_order_port() == port));
      CHECK(all(ep.is_ip6(), eq6(ep.sa6.sin6_addr, want6), ep.host_order_port() == port));
      CHECK(IP6Srv(v) == s6);
    }
    IPSrv c(v);
    IPEndpoint ec{std::string_view(v)};
    CHECK(c.is_valid() == r);
    CHECK(ec.is_valid() == r);
    if (r) {
      CHECK(c.is_ip4() ? c.ip4() == s.ip4() : c.ip6() == s.ip6());
      CHECK(ec.host_order_port() == port);
    }
  });
  REACH("done");
}
template <typename T> static TextView print(FixedBufferWriter &w, T const &v, Spec const &spec = Spec{})
{
  bwformat(w, spec, v);
  return w.view();
}
HARNESS(h_srv_print)
{
  unsigned fam = sym_split(2, "family"), what = sym_split(4, "what"), which = sym_pick(4, "addr");
  in_port_t port = sym_u16("port");
  Block buf(64);
  FixedBufferWriter w(buf.p, buf.n);
  IPSrv s;
  if (fam == 0) {
    static const uint32_t fixed[] = {0x0a090807, 0xfffe0000, 0, 0xc0a80164};
    uint32_t host = fixed[which];
    if (which < 2)
      host = (host & ~0xffu) | sym_u8("octet");
    s.assign(IP4Addr(in_addr_t(host)), port);
  } else {
    static const uint64_t fixed[][2] = {{0xffee1f2dc58724c3, 0x912833493cee0143}, {0xfe80000000000000, 0x1}, {0, 0}, {0, 0xffff01020304}};
    uint64_t lo = fixed[which][1];
    if (which < 2)
      lo = (lo & ~0xffffull) | sym_u16("group");
    s.assign(IP6Addr(net6(fixed[which][0], lo)), port);
  }
  TextView t;
  IPEndpoint ep(s);
  if (what == 0)
    t = print(w, s);
  else if (what == 1)
    t = fam == 0 ? print(w, s.ip4()) : print(w, s.ip6());
  else if (what == 2)
    t = print(w, ep);
  else
    t = print(w, static_cast<sockaddr const *>(&ep.sa));
  CHECK(!w.error());
  IPSrv b;
  CHECKM(b.load(t), "printed text is a service");
  CHECKM(b.family() == s.family(), "family");
  CHECKM(b.host_order_port() == port, "port");
  CHECKM(b.addr() == s.addr(), "address");
  IPEndpoint e2;
  CHECK(e2.parse(t));
  CHECK(e2.host_order_port() == port);
  REACH("done");
}
HARNESS(h_srv_format)
{
  unsigned fam = sym_split(2, "family"), codes = sym_split(8, "codes"), fill = sym_split(3, "fill"), order = sym_pick(2, "order");
  in_port_t port = sym_u16("port");
  static const char *ext[] = {"", "a", "p", "ap", "f", "fa", "pf", "fpa"}, *rev[] = {"", "a", "p", "pa", "f", "af", "fp", "apf"};
  char e[6];
  unsigned n = 0;
  if (fill == 1)
    e[n++] = '=';
  else if (fill == 2)
    e[n++] = ' ', e[n++] = '=';
  for (const char *p = order ? rev[codes] : ext[codes]; *p; ++p)
    e[n++] = *p;
  Spec spec;
  spec._ext = TextView(e, n);
  bool a = codes & 1, p = codes & 2, f = codes & 4;
  if (codes == 0)
    a = p = true;
  IPEndpoint ep;
  if (fam == 0)
    ep.assign(IP4Srv(IP4Addr(in_addr_t(0xac130369)), port));
  else
    ep.assign(IP6Srv(IP6Addr(net6(0x1337000000000ded, 0xbeef000000000956)), port));
  Txt t;
  static const char *text[2][3] = {{"172.19.3.105", "172.019.003.105", "172. 19.  3.105"}, {"1337::ded:beef:0:0:956", "1337:0000:0000:0ded:beef:0000:0000:0956", "1337:   0:   0: ded:beef:   0:   0: 956"}};
  if (a) {
    if (fam && p)
      t.put('[');
    t.put(text[fam][fill]);
    if (fam && p)
      t.put(']');
    if (p)
      t.put(':');
  }
  Block buf(64);
  FixedBufferWriter w(buf.p, buf.n);
  unsigned how = order;
  bool generic = !p && how; // as an address
  if (generic) {
    bwformat(w, spec, IPAddr(ep));
  } else
    bwformat(w, spec, ep);
  if (p)
    t.dec(port, fill == 1 ? '0' : fill == 2 ? ' ' : 0);
  if (f) {
    if (a || p)
      t.put(' ');
    t.put(fam ? "ipv6" : "ipv4");
  }
  CHECK(w.extent() == t.n);
  CHECKM(same(w.view(), t), "the wanted parts in order");
  REACH("done");
}
template <typename... A> static TextView show(FixedBufferWriter &w, TextView fmt, A const &...args)
{
  w.print(fmt, args...);
  return w.view();
}
HARNESS(h_srv_format_more)
{
  unsigned k = sym_split(5, "kind");
  swoc::LocalBufferWriter<128> w, w2;
  in_port_t port = sym_u16("port");
  uint32_t host  = 0x01020300 + sym_u8("octet");
  IPEndpoint ep4{IPSrv(IP4Addr(in_addr_t(host)), port)}, ep6{IPSrv(IP6Addr(net6(0x1337000000000ded, 0xbeef000000000956)), port)};
  bool six = sym_pick(2, "six");
  IPEndpoint &ep = six ? ep6 : ep4;
  switch (k) {
  case 0: { // the kinds of pointers to it
    static const char *const FMT[] = {"<{}>", "<{::=ap}>", "<{::f}>", "<{:p}>", "<{:P}>", "<{:d:f}>"};
    unsigned f = sym_pick(6, "format");
    TextView fmt(FMT[f], strlen(FMT[f]));
    sockaddr const *sa = &ep.sa;
    show(w, fmt, sa);
    if (f == 3 || f == 4)
      show(w2, fmt, static_cast<void const *>(sa));
    else
      show(w2, fmt, ep);
    CHECKM(w.view() == w2.view(), "a socket address is formatted as the endpoint, or as a pointer");
    w2.clear();
    if (six)
      show(w2, fmt, const_cast<sockaddr_in6 const *>(ep.ip6()));
    else
      show(w2, fmt, const_cast<sockaddr_in const *>(ep.ip4()));
    CHECKM(w.view() == w2.view(), "specific socket address");
    break;
  }
  case 1: { // other families
    unsigned codes = sym_pick(8, "codes");
    sa_family_t family = sym_u16("family");
    ASSUME(all(family != AF_INET, family != AF_INET6));
    IPEndpoint odd;
    odd.sa.sa_family = family;
    static const char *const FMT[] = {"", "{::a}", "{::p}", "{::ap}", "{::f}", "{:d:f}", "{:d:fa}", "{::pf}"};
    TextView fmt(FMT[codes], strlen(FMT[codes]));
    show(w, fmt, odd);
    bool a = codes == 1 || codes == 3 || codes == 6, p = codes == 2 || codes == 3 || codes == 7, f = codes >= 4;
    if (a)
      w2.print("*Invalid IP family [{}]*", family);
    if (a && p)
      w2.write(':');
    if (p)
      w2.write('0');
    if (f && (a || p))
      w2.write(' ');
    if (f && codes < 7 && codes > 4)
      w2.print("{}", family);
    else if (f)
      w2.print("{}", family == AF_UNIX ? "unix" : family == AF_UNSPEC ? "unspec" : "unknown");
    CHECKM(w.view() == w2.view(), "neither IPv4 nor IPv6");
    break;
  }
  case 2: { // addresses
    unsigned f = sym_pick(5, "format"), what = sym_pick(3, "which");
    IPAddr a;
    if (what == 1)
      a = IP4Addr(in_addr_t(host));
    else if (what == 2)
      a = IPAddr(ep6);
    static const char *const FMT[] = {"{}", "{::a}", "{::f}", "{:d:f}", "{::fa}"};
    show(w, TextView(FMT[f], strlen(FMT[f])), a);
    if (f != 2 && f != 3) {
      if (what == 0)
        w2.print("*Not IP address [{}]*", int(AF_UNSPEC));
      else if (what == 1)
        w2.print("{}", a.ip4());
      else
        w2.print("{}", a.ip6());
    }
    if (f == 4)
      w2.write(' ');
    if (f == 3)
      w2.print("{}", a.family());
    else if (f == 2 || f == 4)
      w2.print("{}", what == 0 ? "unspec" : what == 1 ? "ipv4" : "ipv6");
    CHECKM(w.view() == w2.view(), "address and family of an address");
    break;
  }
  case 3: { // fields
    static const char *const FMT[] = {"<{:>25:a}>", "<{:*<50:=a}>", "<{:*^50}>", "<{:>25: =ap}>"}, *const IN[] = {"{::a}", "{::=a}", "{}", "{:: =ap}"};
    unsigned f = sym_pick(4, "format");
    show(w, TextView(FMT[f], strlen(FMT[f])), ep);
    show(w2, TextView(IN[f], strlen(IN[f])), ep);
    swoc::LocalBufferWriter<128> w3;
    static const char *const OUT[] = {"<{:>25}>", "<{:*<50}>", "<{:*^50}>", "<{:>25}>"};
    show(w3, TextView(OUT[f], strlen(OUT[f])), w2.view());
    CHECKM(w.view() == w3.view(), "the field is padded as text of the address");
    break;
  }
  case 4: { // families
    sa_family_t family = sym_u16("family");
    TextView n = IPEndpoint::family_name(family);
    CHECKM((n == "ipv4") == (family == AF_INET), "name of IPv4");
    CHECKM((n == "ipv6") == (family == AF_INET6), "name of IPv6");
    CHECKM((n == "unix") == (family == AF_UNIX), "name of the local family");
    CHECKM((n == "unspec") == (family == AF_UNSPEC), "name of no family");
    IPSrv none;
    w.print("<{}>", none);
    CHECKM(w.view() == "<>", "an invalid service has no text");
    break;
  }
  }
  REACH("done");
}
// ---- values
HARNESS(h_srv_value)
{
  in_port_t p = sym_u16("p"), q = sym_u16("q");
  uint16_t np = __builtin_bswap16(p);
  unsigned fam = sym_split(2, "family"), what = sym_split(4, "what");
  if (fam == 0) {
    uint32_t x = sym_u32("x"), y = sym_u32("y");
    IP4Addr a{in_addr_t(x)}, b{in_addr_t(y)};
    IP4Srv s(a, p), t(b, q);
    IPSrv g(a, p);
    switch (what) {
    case 0: {
      CHECK(all(s.addr().host_order() == x, s.host_order_port() == p, s.network_order_port() == np, s.family() == AF_INET));
      CHECK(all(g.is_valid(), g.is_ip4(), !g.is_ip6(), g.family() == AF_INET, g.host_order_port() == p, g.network_order_port() == np));
      CHECK(all(g.addr() == a, g.ip4() == s, g == s, s == g, !(g != s), !(s != g), g == a));
      CHECK(IP4Srv(g) == s);
      CHECK(IP6Srv(g) == IP6Srv());
      CHECK(all(IP4Srv(a).host_order_port() == 0, IPSrv(a).host_order_port() == 0));
      IPSrv g2(IPAddr(a), p);
      CHECK(all(g2.is_ip4(), g2 == s));
      CHECK(!IPSrv(IPAddr(), p).is_valid());
      IPSrv nil;
      CHECK(all(!nil.is_valid(), nil.host_order_port() == 0, nil != s, !nil.addr().is_valid()));
      break;
    }
    case 1: {
      bool l = any(x < y, all(x == y, p < q)), r = any(y < x, all(x == y, q < p));
      CHECK(all((s < t) == l, (s > t) == r, (s <= t) == !r, (s >= t) == !l, (s == t) == all(!l, !r), (s != t) == any(l, r)));
      IPSrv h = g;
      CHECK(all((h == t) == all(!l, !r), (t != h) == any(l, r), (h < t) == l, (t < h) == r, (h <= t) == !r, (h > t) == r, (h >= t) == !l, (t > h) == l, (t <= h) == !l, (t >= h) == !r));
      break;
    }
    case 2: {
      IP4Srv u;
      CHECK(&u.assign(a) == &u);
      CHECK(&u.assign(p) == &u);
      CHECK(u == s);
      CHECK(&u.assign(b) == &u);
      CHECK(all(u.addr() == b, u.host_order_port() == p));
      CHECK(&u.assign(a, q) == &u);
      CHECK(all(u.addr() == a, u.host_order_port() == q));
      IPSrv v(IP6Addr(net6(1, 2)), q);
      CHECK(&v.assign(a) == &v);
      CHECKM(all(v.is_ip4(), v.ip4().addr() == a, v.host_order_port() == q), "changing the address keeps the port");
      CHECK(&v.assign(p) == &v);
      CHECK(v == s);
      IPSrv v2(IP6Addr(net6(1, 2)), q);
      CHECK(&v2.assign(IPAddr(a)) == &v2);
      CHECK(all(v2.is_ip4(), v2.ip4().addr() == a, v2.host_order_port() == q));
      CHECK(&v2.assign(IPAddr(b), p) == &v2);
      CHECK(all(v2.ip4().addr() == b, v2.host_order_port() == p));
      CHECK(&(v2 = s) == &v2);
      CHECK(v2 == s);
      v2.assign(b, q);
      CHECK(v2 == t);
      IPSrv v3 = v2;
      v3.assign(IPAddr(), p); // ignored
      v3.assign(IPAddr());
      CHECK(v3 == t);
      IPSrv v4(IP6Addr(net6(1, 2)), 3);
      v4 = v3;
      CHECK(v4 == t);
      break;
    }
    case 3: {
      Block mem(sizeof(sockaddr_in));
      sockaddr_in *sin = reinterpret_cast<sockaddr_in *>(mem.p);
      memset(sin, 0x55, sizeof *sin);
      sin->sin_family = AF_INET;
      sin->sin_port = np;
      sin->sin_addr.s_addr = __builtin_bswap32(x);
      CHECK(IP4Srv(sin) == s);
      IP4Srv u;
      CHECK(&u.assign(sin) == &u);
      CHECK(u == s);
      CHECK(IPSrv(sin) == s);
      CHECK(IPSrv(reinterpret_cast<sockaddr *>(sin)) == s);
      IPSrv v(IP6Addr(net6(1, 2)), q);
      CHECK(&v.assign(sin) == &v);
      CHECK(v == s);
      IPSrv v2(IP6Addr(net6(1, 2)), q);
      CHECK(&(v2 = reinterpret_cast<sockaddr const *>(sin)) == &v2);
      CHECK(v2 == s);
      IPEndpoint ep(g);
      CHECK(all(IPSrv(ep).is_ip4(), IPSrv(ep) == s));
      IPAddr ga(reinterpret_cast<sockaddr const *>(sin));
      CHECK(ga == a);
      CHECK(ga == reinterpret_cast<sockaddr const *>(sin));
      sin->sin_family = AF_UNIX;
      CHECK(!IPSrv(reinterpret_cast<sockaddr *>(sin)).is_valid());
      v.assign(reinterpret_cast<sockaddr *>(sin));
      CHECKM(v == s, "ignored");
      CHECK(!IPAddr(reinterpret_cast<sockaddr *>(sin)).is_valid());
      CHECK(&ga.assign(reinterpret_cast<sockaddr *>(sin)) == &ga);
      CHECK(!ga.is_valid());
      CHECK(!ga.assign(static_cast<sockaddr *>(nullptr)).is_valid());
      break;
    }
    }
  } else {
    in6_addr x = any6("x"), y = any6("y");
    IP6Addr a{x}, b{y};
    IP6Srv s(a, p), t(b, q);
    IPSrv g(a, p);
    switch (what) {
    case 0: {
      CHECK(all(eq6(s.addr().network_order(), x), s.host_order_port() == p, s.network_order_port() == np, s.family() == AF_INET6));
      CHECK(all(g.is_valid(), g.is_ip6(), !g.is_ip4(), g.family() == AF_INET6, g.host_order_port() == p, g.network_order_port() == np));
      CHECK(all(g.addr() == a, g.ip6() == s, g == s, s == g, !(g != s), !(s != g), g == a));
      CHECK(IP6Srv(g) == s);
      CHECK(IP4Srv(g) == IP4Srv());
      CHECK(all(IP6Srv(a).host_order_port() == 0, IPSrv(a).host_order_port() == 0));
      IPSrv g2(IPAddr(a), p);
      CHECK(all(g2.is_ip6(), g2 == s));
      break;
    }
    case 1: {
      bool al = a < b, ag = b < a;
      bool l = any(al, all(!ag, p < q)), r = any(ag, all(!al, q < p));
      CHECK(all((s < t) == l, (s > t) == r, (s <= t) == !r, (s >= t) == !l, (s == t) == all(!l, !r), (s != t) == any(l, r)));
      IPSrv h = g;
      CHECK(all((h == t) == all(!l, !r), (t != h) == any(l, r), (h < t) == l, (t < h) == r, (h <= t) == !r, (h > t) == r, (h >= t) == !l, (t > h) == l, (t <= h) == !l, (t >= h) == !r));
      break;
    }
    case 2: {
      IP6Srv u;
      CHECK(&u.assign(a) == &u);
      CHECK(&u.assign(p) == &u);
      CHECK(u == s);
      CHECK(&u.assign(b) == &u);
      CHECK(all(u.addr() == b, u.host_order_port() == p));
      CHECK(&u.assign(a, q) == &u);
      CHECK(all(u.addr() == a, u.host_order_port() == q));
      IPSrv v(IP4Addr(in_addr_t(12)), q);
      CHECK(&v.assign(a) == &v);
      CHECKM(all(v.is_ip6(), v.ip6().addr() == a, v.host_order_port() == q), "changing the address keeps the port");
      CHECK(&v.assign(p) == &v);
      CHECK(v == s);
      IPSrv v2(IP4Addr(in_addr_t(12)), q);
      CHECK(&v2.assign(IPAddr(a)) == &v2);
      CHECK(all(v2.is_ip6(), v2.ip6().addr() == a, v2.host_order_port() == q));
      CHECK(&v2.assign(IPAddr(b), p) == &v2);
      CHECK(all(v2.ip6().addr() == b, v2.host_order_port() == p));
      CHECK(&(v2 = s) == &v2);
      CHECK(v2 == s);
      v2.assign(b, q);
      CHECK(v2 == t);
      IPSrv v4(IP4Addr(in_addr_t(1)), 3);
      v4 = v2;
      CHECK(v4 == t);
      break;
    }
    case 3: {
      Block mem(sizeof(sockaddr_in6));
      sockaddr_in6 *sin = reinterpret_cast<sockaddr_in6 *>(mem.p);
      memset(sin, 0x55, sizeof *sin);
      sin->sin6_family = AF_INET6;
      sin->sin6_port = np;
      sin->sin6_addr = x;
      CHECK(IP6Srv(sin) == s);
      IP6Srv u;
      CHECK(&u.assign(sin) == &u);
      CHECK(u == s);
      CHECK(IPSrv(sin) == s);
      CHECK(IPSrv(reinterpret_cast<sockaddr *>(sin)) == s);
      IPSrv v(IP4Addr(in_addr_t(12)), q);
      CHECK(&v.assign(sin) == &v);
      CHECK(v == s);
      IPSrv v2(IP4Addr(in_addr_t(12)), q);
      CHECK(&(v2 = reinterpret_cast<sockaddr const *>(sin)) == &v2);
      CHECK(v2 == s);
      IPEndpoint ep(g);
      CHECK(all(IPSrv(ep).is_ip6(), IPSrv(ep) == s));
      IPAddr ga(reinterpret_cast<sockaddr const *>(sin));
      CHECK(ga == a);
      CHECK(ga == reinterpret_cast<sockaddr const *>(sin));
      break;
    }
    }
  }
  REACH("done");
}
// An endpoint in memory that held something else before.
template <typename... A> static IPEndpoint *fresh(char *mem, A &&...args)
{
  memset(mem, 0, sizeof(IPEndpoint));
  mem[0] = AF_INET; // a valid family
  sym_observe(reinterpret_cast<uintptr_t>(mem) & 1);
  return new (mem) IPEndpoint(static_cast<A &&>(args)...);
}
// Equality between the kinds of address: the same family and address.
HARNESS(h_srv_cross)
{
  unsigned fl = sym_split(3, "left"), fr = sym_split(3, "right");
  in_port_t p = sym_u16("p"), q = sym_u16("q");
  uint32_t x4 = sym_u32("x4"), y4 = sym_u32("y4");
  in6_addr x6 = any6("x6"), y6 = any6("y6");
  IP4Addr la4{in_addr_t(x4)}, ra4{in_addr_t(y4)};
  IP6Addr la6{x6}, ra6{y6};
  IPAddr la, ra;
  IPSrv ls, rs;
  IPEndpoint le, re;
  if (fl == 0)
    la = la4, ls = IPSrv(la4, p), le = IPEndpoint(ls);
  else if (fl == 1)
    la = la6, ls = IPSrv(la6, p), le = IPEndpoint(ls);
  if (fr == 0)
    ra = ra4, rs = IPSrv(ra4, q), re = IPEndpoint(rs);
  else if (fr == 1)
    ra = ra6, rs = IPSrv(ra6, q), re = IPEndpoint(rs);
  bool a4 = x4 == y4, a6 = eq6(x6, y6), same = fl == fr && (fl == 0 ? a4 : fl == 1 ? a6 : true);
  // family independent addresses
  CHECKM(all((la == ra) == same, (la != ra) == !same), "addresses");
  bool is4 = all(fl == 0, a4), is6 = all(fl == 1, a6); // left is the other address of each family
  CHECKM(all((la == ra4) == is4, (ra4 == la) == is4, (la != ra4) == !is4, (ra4 != la) == !is4), "address with IPv4 address");
  CHECKM(all((la == ra6) == is6, (ra6 == la) == is6, (la != ra6) == !is6, (ra6 != la) == !is6), "address with IPv6 address");
  CHECKM(all((ls == ra4) == is4, (ra4 == ls) == is4, (ls != ra4) == !is4, (ra4 != ls) == !is4), "service with IPv4 address");
  CHECKM(all((ls == ra6) == is6, (ra6 == ls) == is6, (ls != ra6) == !is6, (ra6 != ls) == !is6), "service with IPv6 address");
  if (fl < 2 || fr < 2) { // comparison without any address is not specified
    CHECKM(all((la == re) == same, (re == la) == same, (la != re) == !same, (re != la) == !same), "address with endpoint");
    sockaddr const *sa = &re.sa;
    CHECKM(all((la == sa) == same, (sa == la) == same, (la != sa) == !same, (sa != la) == !same), "address with socket address");
    CHECKM(le.family() == ls.family() && ls.family() == la.family(), "family");
  }
  // services
  IP4Srv r4(ra4, q);
  IP6Srv r6(ra6, q);
  bool s4 = all(is4, p == q), s6 = all(is6, p == q);
  CHECKM(all((ls == r4) == s4, (r4 == ls) == s4, (ls != r4) == !s4, (r4 != ls) == !s4), "service with IPv4 service");
  CHECKM(all((ls == r6) == s6, (r6 == ls) == s6, (ls != r6) == !s6, (r6 != ls) == !s6), "service with IPv6 service");
  if (fl != 0)
    CHECKM(!any(ls < r4, ls <= r4, ls > r4, ls >= r4, r4 < ls, r4 <= ls, r4 > ls, r4 >= ls), "no order with services of the other family");
  if (fl != 1)
    CHECKM(!any(ls < r6, ls <= r6, ls > r6, ls >= r6, r6 < ls, r6 <= ls, r6 > ls, r6 >= ls), "no order with services of the other family");
  REACH("done");
}
HARNESS(h_endpoint)
{
  unsigned fam = sym_split(3, "family"), what = sym_split(4, "what");
  in_port_t p = sym_u16("p");
  uint16_t np = __builtin_bswap16(p);
  alignas(IPEndpoint) char mem[sizeof(IPEndpoint)];
  if (fam == 0) {
    uint32_t x = sym_u32("x"), nx = __builtin_bswap32(x);
    IP4Addr a{in_addr_t(x)};
    switch (what) {
    case 0: { // from addresses and services
      auto good = [&](IPEndpoint const &e, in_port_t port) {
        CHECK(all(e.is_valid(), e.is_ip4(), !e.is_ip6(), e.family() == AF_INET, e.size() == sizeof(sockaddr_in), e.sa_size() == sizeof(sockaddr_in)));
        CHECK(all(e.ip4() == &e.sa4, e.ip6() == nullptr, e.sa4.sin_addr.s_addr == nx, e.sa4.sin_port == __builtin_bswap16(port)));
        CHECK(all(e.host_order_port() == port, e.network_order_port() == __builtin_bswap16(port)));
        CHECK(all(IPEndpoint::host_order_port(&e.sa) == port, IPEndpoint::is_valid(&e.sa)));
        auto raw = e.raw_addr();
        CHECK(all(raw.size() == 4, raw.data() == &e.sa4.sin_addr));
        CHECK(all(IPAddr(e) == a, IP4Addr(e.ip4()) == a));
        IPAddr g;
        g = e;
        CHECK(g == a);
        CHECK(IPEndpoint::family_name(e.family()) == "ipv4");
      };
      IPEndpoint e;
      CHECK(all(!e.is_valid(), e.family() == AF_UNSPEC));
      CHECK(&e.assign(a) == &e);
      good(e, 0);
      good(*fresh(mem, IPAddr(a)), 0);
      good(*fresh(mem, IPSrv(a, p)), p);
      IPEndpoint f;
      f.set_to_loopback(AF_INET6);
      CHECK(&f.assign(IP4Srv(a, p)) == &f);
      good(f, p);
      f.assign(IPAddr(a));
      good(f, 0);
      f.assign(IPSrv(a, p));
      good(f, p);
      f.assign(IPAddr(a), p);
      good(f, p);
      IPEndpoint::port(&f.sa) = __builtin_bswap16(7);
      good(f, 7);
      CHECK(&f.invalidate() == &f);
      CHECK(!f.is_valid());
      break;
    }
    case 1: { // structures
      Block src(sizeof(sockaddr_in)), dst(sizeof(sockaddr_in));
      sockaddr_in *sin = reinterpret_cast<sockaddr_in *>(src.p), *out = reinterpret_cast<sockaddr_in *>(dst.p);
      memset(dst.p, 0, dst.n);
      memset(src.p, 0, src.n);
      sin->sin_family = AF_INET;
      sin->sin_port = np;
      sin->sin_addr.s_addr = nx;
      CHECK(IPEndpoint::assign(reinterpret_cast<sockaddr *>(out), reinterpret_cast<sockaddr *>(sin)));
      CHECK(all(out->sin_family == AF_INET, out->sin_port == np, out->sin_addr.s_addr == nx));
      CHECKM(IPEndpoint::assign(reinterpret_cast<sockaddr *>(out), reinterpret_cast<sockaddr *>(out)), "self assignment leaves a valid address");
      CHECK(all(out->sin_family == AF_INET, out->sin_port == np, out->sin_addr.s_addr == nx));
      IPEndpoint e(reinterpret_cast<sockaddr const *>(sin)), f, h(sin);
      f.set_to_loopback(AF_INET6);
      CHECK(all(e.is_ip4(), e.sa4.sin_port == np, e.sa4.sin_addr.s_addr == nx));
      CHECK(all(h.is_ip4(), h.sa4.sin_port == np, h.sa4.sin_addr.s_addr == nx));
      CHECK(&f.assign(sin) == &f);
      CHECK(all(f.is_ip4(), f.sa4.sin_port == np, f.sa4.sin_addr.s_addr == nx));
      IPEndpoint k(f), m;
      CHECK(all(k.is_ip4(), k.sa4.sin_port == np, k.sa4.sin_addr.s_addr == nx));
      m.set_to_any(AF_INET6);
      CHECK(&(m = k) == &m);
      CHECK(all(m.is_ip4(), m.sa4.sin_port == np, m.sa4.sin_addr.s_addr == nx));
      IPEndpoint &mr = m;
      m = mr;
      CHECK(all(m.is_ip4(), m.sa4.sin_port == np, m.sa4.sin_addr.s_addr == nx));
      memset(dst.p, 0x77, dst.n);
      CHECK(&m.copy_to(reinterpret_cast<sockaddr *>(out)) == &m);
      CHECK(all(out->sin_family == AF_INET, out->sin_port == np, out->sin_addr.s_addr == nx));
      out->sin_addr.s_addr = 0;
      CHECK(a.copy_to(out) == out);
      CHECKM(all(out->sin_family == AF_INET, out->sin_port == np, out->sin_addr.s_addr == nx), "only family and address are set");
      memset(dst.p, 0x77, dst.n);
      CHECK(a.copy_to(reinterpret_cast<sockaddr *>(out)) == reinterpret_cast<sockaddr *>(out));
      CHECK(all(out->sin_family == AF_INET, out->sin_port == 0x7777, out->sin_addr.s_addr == nx));
      memset(dst.p, 0x77, dst.n);
      CHECK(IPAddr(a).copy_to(reinterpret_cast<sockaddr *>(out)) == reinterpret_cast<sockaddr *>(out));
      CHECK(all(out->sin_family == AF_INET, out->sin_port == 0x7777, out->sin_addr.s_addr == nx));
      IP4Addr c;
      CHECK(&(c = sin) == &c);
      CHECK(c == a);
      CHECK(IPAddr().assign(sin) == a);
      CHECK(IPAddr(reinterpret_cast<sockaddr *>(sin)) == a);
      CHECK((IPAddr(a) == reinterpret_cast<sockaddr *>(sin)) & (reinterpret_cast<sockaddr *>(sin) == IPAddr(a)));
      uint32_t y = sym_u32("y");
      sin->sin_addr.s_addr = y;
      CHECK((IPAddr(a) == reinterpret_cast<sockaddr *>(sin)) == (y == nx));
      CHECK((IPAddr(a) != reinterpret_cast<sockaddr *>(sin)) == (y != nx));
      break;
    }
    case 2: {
      IPEndpoint e;
      e.assign(IP6Srv(IP6Addr(net6(sym_u64("junk"), 3)), p));
      CHECK(&e.set_to_any(AF_INET) == &e);
      CHECK(all(e.is_ip4(), e.is_any(), !e.is_loopback(), e.sa4.sin_addr.s_addr == 0, e.sa4.sin_port == 0));
      e.assign(IP6Srv(IP6Addr(net6(sym_u64("junk"), 3)), p));
      CHECK(&e.set_to_loopback(AF_INET) == &e);
      CHECK(all(e.is_ip4(), e.is_loopback(), !e.is_any(), e.sa4.sin_addr.s_addr == __builtin_bswap32(0x7f000001), e.sa4.sin_port == 0));
      break;
    }
    case 3:
      break;
    }
  } else if (fam == 1) {
    in6_addr x = any6("x");
    IP6Addr a{x};
    uint32_t flow = sym_u32("flow"), scope = sym_u32("scope");
    switch (what) {
    case 0: {
      auto good = [&](IPEndpoint const &e, in_port_t port) {
        CHECK(all(e.is_valid(), e.is_ip6(), !e.is_ip4(), e.family() == AF_INET6, e.size() == sizeof(sockaddr_in6), e.sa_size() == sizeof(sockaddr_in6)));
        CHECK(all(e.ip6() == &e.sa6, e.ip4() == nullptr, eq6(e.sa6.sin6_addr, x), e.sa6.sin6_port == __builtin_bswap16(port)));
        CHECK(all(e.sa6.sin6_flowinfo == 0, e.sa6.sin6_scope_id == 0));
        CHECK(all(e.host_order_port() == port, e.network_order_port() == __builtin_bswap16(port)));
        CHECK(all(IPEndpoint::host_order_port(&e.sa) == port, IPEndpoint::is_valid(&e.sa)));
        auto raw = e.raw_addr();
        CHECK(all(raw.size() == 16, raw.data() == &e.sa6.sin6_addr));
        CHECK(all(IPAddr(e) == a, IP6Addr(e.ip6()) == a));
        CHECK(IPEndpoint::family_name(e.family()) == "ipv6");
      };
      IPEndpoint e;
      CHECK(&e.assign(a) == &e);
      good(e, 0);
      good(*fresh(mem, IPAddr(a)), 0);
      good(*fresh(mem, IPSrv(a, p)), p);
      IPEndpoint f;
      f.set_to_loopback(AF_INET);
      CHECK(&f.assign(IP6Srv(a, p)) == &f);
      good(f, p);
      f.assign(IPAddr(a));
      good(f, 0);
      f.assign(IPSrv(a, p));
      good(f, p);
      f.assign(IPAddr(a), p);
      good(f, p);
      break;
    }
    case 1: {
      Block src(sizeof(sockaddr_in6)), dst(sizeof(sockaddr_in6));
      sockaddr_in6 *sin = reinterpret_cast<sockaddr_in6 *>(src.p), *out = reinterpret_cast<sockaddr_in6 *>(dst.p);
      memset(dst.p, 0, dst.n);
      memset(src.p, 0, src.n);
      sin->sin6_family = AF_INET6;
      sin->sin6_port = np;
      sin->sin6_addr = x;
      sin->sin6_flowinfo = flow;
      sin->sin6_scope_id = scope;
      auto same6 = [&](sockaddr_in6 const &s) { return all(s.sin6_family == AF_INET6, s.sin6_port == np, eq6(s.sin6_addr, x), s.sin6_flowinfo == flow, s.sin6_scope_id == scope); };
      CHECK(IPEndpoint::assign(reinterpret_cast<sockaddr *>(out), reinterpret_cast<sockaddr *>(sin)));
      CHECK(same6(*out));
      CHECKM(IPEndpoint::assign(reinterpret_cast<sockaddr *>(out), reinterpret_cast<sockaddr *>(out)), "self assignment leaves a valid address");
      CHECK(same6(*out));
      IPEndpoint e(reinterpret_cast<sockaddr const *>(sin)), f, h(sin);
      f.set_to_loopback(AF_INET);
      CHECK(same6(e.sa6));
      CHECK(same6(h.sa6));
      CHECK(&f.assign(sin) == &f);
      CHECK(same6(f.sa6));
      IPEndpoint k(f), m;
      CHECK(same6(k.sa6));
      m.set_to_any(AF_INET);
      CHECK(&(m = k) == &m);
      CHECK(same6(m.sa6));
      memset(dst.p, 0x77, dst.n);
      CHECK(&m.copy_to(reinterpret_cast<sockaddr *>(out)) == &m);
      CHECK(same6(*out));
      memset(&out->sin6_addr, 0, 16);
      CHECK(a.copy_to(out) == out);
      CHECKM(same6(*out), "only family and address are set");
      memset(&out->sin6_addr, 0, 16);
      CHECK(a.copy_to(reinterpret_cast<sockaddr *>(out)) == reinterpret_cast<sockaddr *>(out));
      CHECK(same6(*out));
      memset(&out->sin6_addr, 0, 16);
      CHECK(IPAddr(a).copy_to(reinterpret_cast<sockaddr *>(out)) == reinterpret_cast<sockaddr *>(out));
      CHECK(same6(*out));
      IP6Addr c;
      CHECK(&(c = sin) == &c);
      CHECK(c == a);
      CHECK(&(c = static_cast<sockaddr_in6 *>(nullptr)) == &c);
      CHECK(c.is_any());
      CHECK(IPAddr().assign(sin) == a);
      CHECK(IPAddr(reinterpret_cast<sockaddr *>(sin)) == a);
      CHECK((IPAddr(a) == reinterpret_cast<sockaddr *>(sin)) & (reinterpret_cast<sockaddr *>(sin) == IPAddr(a)));
      in6_addr y = any6("y");
      sin->sin6_addr = y;
      CHECK((IPAddr(a) == reinterpret_cast<sockaddr *>(sin)) == eq6(x, y));
      break;
    }
    case 2: {
      IPEndpoint e;
      e.assign(IP4Srv(IP4Addr(in_addr_t(sym_u32("junk"))), p));
      CHECK(&e.set_to_any(AF_INET6) == &e);
      CHECK(all(e.is_ip6(), e.is_any(), !e.is_loopback(), eq6(e.sa6.sin6_addr, net6(0, 0)), e.sa6.sin6_port == 0));
      e.assign(IP4Srv(IP4Addr(in_addr_t(sym_u32("junk"))), p));
      CHECK(&e.set_to_loopback(AF_INET6) == &e);
      CHECK(all(e.is_ip6(), e.is_loopback(), !e.is_any(), eq6(e.sa6.sin6_addr, net6(0, 1)), e.sa6.sin6_port == 0));
      break;
    }
    case 3:
      break;
    }
  } else { // anything but IP
    uint16_t f = sym_u16("other");
    ASSUME(all(f != AF_INET, f != AF_INET6));
    Block src(sizeof(sockaddr)), dst(sizeof(sockaddr));
    memset(src.p, 0x66, src.n);
    memset(dst.p, 0x66, dst.n);
    sockaddr *sa = reinterpret_cast<sockaddr *>(src.p), *out = reinterpret_cast<sockaddr *>(dst.p);
    sa->sa_family = f;
    out->sa_family = AF_INET;
    switch (what) {
    case 0: {
      CHECK(!IPEndpoint::assign(out, sa));
      CHECKM(out->sa_family == AF_UNSPEC, "invalidated");
      IPEndpoint *e = fresh(mem, static_cast<sockaddr const *>(sa));
      CHECK(all(!e->is_valid(), e->family() == AF_UNSPEC, !e->is_ip4(), !e->is_ip6(), e->ip4() == nullptr, e->ip6() == nullptr));
      CHECK(all(e->host_order_port() == 0, e->network_order_port() == 0, e->raw_addr().size() == 0, e->size() == sizeof(sockaddr)));
      CHECK(all(!e->is_any(), !e->is_loopback()));
      CHECK(!IPAddr(*e).is_valid());
      IPEndpoint g;
      g.set_to_loopback(AF_INET);
      g.assign(sa);
      CHECK(!g.is_valid());
      g.set_to_loopback(AF_INET6);
      g = *e;
      CHECK(!g.is_valid());
      break;
    }
    case 1: {
      CHECK(all(!IPEndpoint::is_valid(sa), !IPEndpoint::is_valid(nullptr), IPEndpoint::host_order_port(sa) == 0, IPEndpoint::network_order_port(sa) == 0));
      bool caught = false;
      try {
        IPEndpoint::port(sa);
      } catch (std::domain_error &) {
        caught = true;
      }
      CHECKM(caught, "no port");
      IPEndpoint::invalidate(out);
      CHECK(out->sa_family == AF_UNSPEC);
      CHECK(IPAddr::INVALID == IPAddr(sa));
      CHECK(any(f == AF_UNSPEC, !(IPAddr() == sa)));
      break;
    }
    case 2: { // from values that are not addresses
      IPEndpoint *e = fresh(mem, IPAddr());
      CHECKM(all(!e->is_valid(), e->family() == AF_UNSPEC), "endpoint of an invalid address");
      IPEndpoint *e2 = fresh(mem, IPSrv());
      CHECKM(all(!e2->is_valid(), e2->family() == AF_UNSPEC), "endpoint of an invalid service");
      IPEndpoint *e3 = fresh(mem, std::string_view("nothing"));
      CHECKM(all(!e3->is_valid(), e3->family() == AF_UNSPEC), "endpoint of invalid text");
      CHECK(!IPSrv(*e3).is_valid());
      break;
    }
    case 3:
      CHECK(any(f == AF_UNIX, f == AF_UNSPEC, IPEndpoint::family_name(f) == "unknown"));
      CHECK(IPEndpoint::family_name(AF_UNIX) == "unix");
      CHECK(IPEndpoint::family_name(AF_UNSPEC) == "unspec");
      break;
    }
  }
  REACH("done");
}
