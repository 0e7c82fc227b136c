// Ordering of string views, transform views and FNV-1a hashing.
//@ entry h_str_order props=T04 shards=4 : every pair of views of 0..4 (thorough 5) arbitrary bytes
//@ entry h_str_trans props=T04 shards=4 : every triple of views of 0..2 (thorough 3) arbitrary bytes
//@ entry h_str_affix_nocase props=T04 shards=2 : view of 0..4 (thorough 6) bytes, affix of 0..3 (thorough 4) bytes
//@ entry h_xf_view props=T05 shards=4 : source of 0..6 (thorough 12) arbitrary bytes without terminator; transforms: tolower, toupper, an arbitrary 8 bit xor, widening multiplication, identity
//@ entry h_fnv props=T05 shards=4 time=120 : message of 0..6 (thorough 10) arbitrary bytes split at any position
#include "vf.h"
#include <cctype>
#include "swoc/TextView.h"
#include "swoc/ext/HashFNV.h"
using swoc::TextView;
using std::string_view;

static unsigned lower(char ch)
{
  unsigned c = (unsigned char)ch;
  return all(c >= 'A', c <= 'Z') ? c + 32 : c;
}
template <class K> static int ref_order(const char *a, size_t n, const char *b, size_t m, K const &key)
{
  int r = n < m ? -1 : n > m;
  for (size_t i = n < m ? n : m; i-- > 0;) {
    unsigned x = key(a[i]), y = key(b[i]);
    r = x < y ? -1 : x > y ? 1 : r;
  }
  return r;
}
static unsigned plain(char c) { return (unsigned char)c; }

HARNESS(h_str_order)
{
  const size_t N = BOUND(5, 6);
  size_t n = sym_split(N, "n"), m = sym_pick(N, "m");
  Block a(n, "a"), b(m, "b");
  unsigned op = sym_pick(7, "op");
  string_view sa{a.p, n}, sb{b.p, m};
  TextView ta{a.p, n}, tb{b.p, m};
  int o  = ref_order(a.p, n, b.p, m, plain);
  int oc = ref_order(a.p, n, b.p, m, lower);
  switch (op) {
  case 0: CHECK(sgn(memcmp(sa, sb)) == o); break;
  case 1: CHECK(sgn(strcmp(ta, tb)) == o); break;
  case 2: CHECK(sgn(strcasecmp(sa, sb)) == oc); break;
  case 3: CHECK(TextView::LessThan()(ta, tb) == (o < 0)); break;
  case 4: CHECK(TextView::LessThanNoCase()(ta, tb) == (oc < 0)); break;
  case 5: CHECK(TextView::CaselessEqual()(ta, tb) == (oc == 0)); break;
  case 6: // same memory
    CHECK(memcmp(sa, sa) == 0);
    CHECK(strcasecmp(ta, ta) == 0);
    CHECK(!TextView::LessThan()(ta, ta));
    if (n && m) { // a prefix of the same memory is less
      size_t k = n - 1;
      CHECK(memcmp(sa.substr(0, k), sa) < 0);
      CHECK(memcmp(sa, sa.substr(0, k)) > 0);
      CHECK(strcasecmp(sa.substr(0, k), sa) < 0);
    }
    break;
  }
}
HARNESS(h_str_trans)
{
  const size_t N = BOUND(3, 4);
  size_t n = sym_split(N, "n"), m = sym_pick(N, "m"), k = sym_pick(N, "k");
  Block a(n, "a"), b(m, "b"), c(k, "c");
  TextView ta{a.p, n}, tb{b.p, m}, tc{c.p, k};
  if (sym_pick(2, "case")) {
    TextView::LessThan lt;
    bool ab = lt(ta, tb), bc = lt(tb, tc), ac = lt(ta, tc), ba = lt(tb, ta);
    CHECK(implies(all(ab, bc), ac));
    CHECK(!all(ab, ba));
    CHECK(implies(all(!ab, !ba), all(n == m, memcmp(string_view(ta), string_view(tb)) == 0)));
  } else {
    TextView::LessThanNoCase lt;
    bool ab = lt(ta, tb), bc = lt(tb, tc), ac = lt(ta, tc), ba = lt(tb, ta);
    CHECK(implies(all(ab, bc), ac));
    CHECK(!all(ab, ba));
    CHECK(all(!ab, !ba) == TextView::CaselessEqual()(ta, tb));
  }
}
HARNESS(h_str_affix_nocase)
{
  size_t n = sym_split(BOUND(5, 7), "n"), m = sym_pick(BOUND(4, 5), "m");
  Block a(n, "a"), b(m, "b");
  TextView t{a.p, n};
  string_view x{b.p, m};
  bool fits = n >= m;
  bool pre = fits, suf = fits, prec = fits, sufc = fits;
  for (size_t i = 0; fits && i < m; i++) {
    pre  = all(pre, a[i] == b[i]);
    prec = all(prec, lower(a[i]) == lower(b[i]));
    suf  = all(suf, a[n - m + i] == b[i]);
    sufc = all(sufc, lower(a[n - m + i]) == lower(b[i]));
  }
  CHECK(t.starts_with(x) == pre);
  CHECK(t.starts_with_nocase(x) == prec);
  CHECK(t.ends_with(x) == suf);
  CHECK(t.ends_with_nocase(x) == sufc);
  if (m == 1) {
    CHECK(t.starts_with(b[0]) == pre);
    CHECK(t.ends_with(b[0]) == suf);
    CHECK(t.starts_with_nocase(b[0]) == prec);
    CHECK(t.ends_with_nocase(b[0]) == sufc);
  }
}

template <class X, class F> static void xf_check(X const &xv, const char *p, size_t n, F const &f)
{
  X v{xv};
  for (size_t i = 0; i < n; i++) {
    CHECK(bool(v));
    CHECK(!v.empty());
    CHECK(*v == f(p[i]));
    if (i & 1) {
      auto old = v++;
      CHECK(*old == f(p[i]));
    } else
      ++v;
  }
  CHECK(v.empty());
  CHECK(!v);
  CHECK(v == xv.end());
  CHECK((v == xv) == (n == 0));
  CHECK((v != xv) == (n != 0));
  size_t i = 0;
  for (auto c : xv) {
    CHECKM(i < n, "range iteration stops at the end of the source");
    CHECK(c == f(p[i]));
    ++i;
  }
  CHECK(i == n);
}
HARNESS(h_xf_view)
{
  unsigned op = sym_split(6, "op");
  size_t n    = sym_pick(BOUND(7, 13), "n");
  Block b(n, "text");
  TextView t{b.p, n};
  switch (op) {
  case 0: xf_check(swoc::transform_view_of(&tolower, t), b.p, n, [](char c) { return tolower(c); }); break;
  case 1: xf_check(swoc::transform_view_of(&toupper, t), b.p, n, [](char c) { return toupper(c); }); break;
  case 2: {
    unsigned char k = sym_u8("key");
    auto f          = [k](char c) -> unsigned char { return (unsigned char)c ^ k; };
    xf_check(swoc::transform_view_of(f, t), b.p, n, f);
    break;
  }
  case 3: {
    auto f = [](char c) -> uint64_t { return (unsigned char)c * 0x100000001ull; };
    xf_check(swoc::transform_view_of(f, string_view(t)), b.p, n, f);
    break;
  }
  case 4: xf_check(swoc::transform_view_of(t), b.p, n, [](char c) { return c; }); break;
  case 5: xf_check(swoc::transform_view_of(string_view(t)), b.p, n, [](char c) { return c; }); break;
  }
}
template <class H, class T> static void fnv_one(T init, T prime, const char *p, size_t n, size_t cut)
{
  T want = init;
  for (size_t i = 0; i < n; i++)
    want = (want ^ (unsigned char)p[i]) * prime;
  H one, two;
  T h = one.hash_immediate(string_view{p, n});
  CHECK(h == want);
  two.update(string_view{p, cut});
  two.update(swoc::transform_view_of(TextView{p + cut, n - cut}));
  two.final();
  CHECK(two.get() == want);
  two.clear();
  CHECK(two.get() == init);
  two.update(string_view{});
  CHECK(two.get() == init);
  // transformed data
  auto up = [](char c) -> char { return c ^ 0x20; };
  T xw    = init;
  for (size_t i = 0; i < n; i++)
    xw = (xw ^ (unsigned char)(p[i] ^ 0x20)) * prime;
  H three;
  CHECK(three.hash_immediate(swoc::transform_view_of(up, TextView{p, n})) == xw);
}
HARNESS(h_fnv)
{
  if (sym_split(2, "part")) { // one octet messages never collide
    Block a(1, "a"), b(1, "b");
    ASSUME(a[0] != b[0]);
    swoc::Hash32FNV1a x, y;
    CHECK(x.hash_immediate(string_view{a.p, 1}) != y.hash_immediate(string_view{b.p, 1}));
    swoc::Hash64FNV1a u, v;
    CHECK(u.hash_immediate(string_view{a.p, 1}) != v.hash_immediate(string_view{b.p, 1}));
    return;
  }
  unsigned op = sym_split(2, "op");
  size_t n    = sym_split(BOUND(7, 11), "n");
  size_t cut  = sym_pick(n + 1, "cut");
  Block b(n, "text");
  if (op)
    fnv_one<swoc::Hash64FNV1a, uint64_t>(0xcbf29ce484222325ull, 0x100000001b3ull, b.p, n, cut);
  else
    fnv_one<swoc::Hash32FNV1a, uint32_t>(0x811c9dc5u, 16777619u, b.p, n, cut);
}
