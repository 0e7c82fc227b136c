// TextView: views are partitioned exactly by the affix operations.
//@ entry h_tv_affix props=T01 shards=8 : view of 0..6 (thorough 9) arbitrary bytes, delimiter any byte or any set of 0..2 bytes or a predicate equal to it, size argument any 64 bit value
//@ entry h_tv_trim props=T02 shards=8 : view of 0..5 (thorough 7) arbitrary bytes, trim set of 0..3 arbitrary bytes / predicate
//@ entry h_tv_misc props=T02 shards=4 : view of 0..5 (thorough 7) bytes, affix test text of 0..4 bytes, any offset and count
#include "vf.h"
#include "swoc/TextView.h"
using swoc::TextView;
static const size_t N = BOUND(6, 9);
static const size_t NP = ~size_t(0);

// Expected first / last matching index (NP if none), branch free.
template <class P> static size_t first_of(const char *p, size_t n, P const &m)
{
  size_t r = NP;
  for (size_t i = n; i-- > 0;)
    r = m(p[i]) ? i : r;
  return r;
}
template <class P> static size_t last_of(const char *p, size_t n, P const &m)
{
  size_t r = NP;
  for (size_t i = 0; i < n; i++)
    r = m(p[i]) ? i : r;
  return r;
}
// view v is the n bytes at base + off (position is irrelevant for an empty view)
static bool is(TextView const &v, const char *base, size_t off, size_t n)
{
  return all(v.size() == n, any(n == 0, v.data() == base + off));
}
static bool is0(TextView const &v) { return v.size() == 0; }

struct Set {
  char c[2];
  size_t n;
  bool operator()(char x) const
  {
    bool r = false;
    for (size_t i = 0; i < n; i++)
      r = any(r, x == c[i]);
    return r;
  }
};

HARNESS(h_tv_affix)
{
  unsigned op  = sym_split(30, "op");
  size_t len   = sym_pick(N + 1, "len");
  Block b(len, "text");
  TextView src{b.p, len};
  TextView v{src};
  const char *p = b.p;
  if (op < 10) { // index based
    size_t n  = sym_u64("n");
    bool in   = n < len;
    size_t mn = n < len ? n : len;
    TextView r;
    switch (op) {
    case 0: r = v.prefix(n); CHECK(is(r, p, 0, mn)); CHECK(is(v, p, 0, len)); break;
    case 1: r = v.suffix(n); CHECK(is(r, p, len - mn, mn)); CHECK(is(v, p, 0, len)); break;
    case 2: v.remove_prefix(n); CHECK(is(v, p, mn, len - mn)); break;
    case 3: v.remove_suffix(n); CHECK(is(v, p, 0, len - mn)); break;
    case 4:
      r = v.split_prefix(n);
      if (in) {
        REACH("split_prefix in");
        CHECK(is(r, p, 0, n));
        CHECK(is(v, p, n + 1, len - n - 1));
      } else if (n > len) {
        CHECK(is0(r));
        CHECK(is(v, p, 0, len));
      } else {
        CHECK(r.size() + v.size() == len);
      }
      break;
    case 5:
      r = v.take_prefix(n);
      CHECK(is(r, p, 0, mn));
      if (in) {
        CHECK(is(v, p, n + 1, len - n - 1));
      } else
        CHECK(is0(v));
      break;
    case 6:
      r = v.split_suffix(n);
      if (in) {
        REACH("split_suffix in");
        CHECK(is(r, p, len - n, n));
        CHECK(is(v, p, 0, len - n - 1));
      } else {
        CHECK(r.size() + v.size() == len);
      }
      break;
    case 7:
      r = v.take_suffix(n);
      CHECK(is(r, p, len - mn, mn));
      if (in) {
        REACH("take_suffix in");
        CHECK(is(v, p, 0, len - n - 1));
      } else
        CHECK(is0(v));
      break;
    case 8: {
      size_t c = sym_u64("count");
      r        = v.substr(n, c);
      if (in)
        CHECK(is(r, p, n, c < len - n ? c : len - n));
      else
        CHECK(is0(r));
      break;
    }
    case 9: v += n; CHECK(is(v, p, mn, len - mn)); break;
    }
    return;
  }
  // delimiter based: 10 operations x {char, set, predicate} spread over op 10..19, 20..29
  unsigned style = op >= 20 ? 1 + sym_pick(2, "style") : 0;
  unsigned k     = op % 10;
  Set s;
  s.n = style == 1 ? sym_pick(3, "nset") : 1;
  for (size_t i = 0; i < s.n; i++)
    s.c[i] = (char)sym_u8("delim");
  size_t f = first_of(p, len, s), l = last_of(p, len, s);
  bool hit = f != NP;
  TextView r;
  std::string_view sv{s.c, s.n};
#define OP(NAME, IFN)                      \
  (style == 0 ? v.NAME##_at(s.c[0]) : style == 1 ? v.NAME##_at(sv) : v.NAME##_if(s))
  switch (k) {
  case 0: r = OP(prefix, 0); CHECK(is(v, p, 0, len)); CHECK(implies(hit, is(r, p, 0, f))); CHECK(implies(!hit, is0(r))); break;
  case 1: r = OP(suffix, 0); CHECK(is(v, p, 0, len)); CHECK(implies(hit, is(r, p, l + 1, len - l - 1))); CHECK(implies(!hit, is0(r))); break;
  case 2: OP(remove_prefix, 0); CHECK(implies(hit, is(v, p, f + 1, len - f - 1))); CHECK(implies(!hit, any(is0(v), is(v, p, 0, len)))); break;
  case 3: OP(remove_suffix, 0); CHECK(implies(hit, is(v, p, 0, l))); CHECK(implies(!hit, any(is0(v), is(v, p, 0, len)))); break;
  case 4:
    r = OP(split_prefix, 0);
    CHECK(implies(hit, all(is(r, p, 0, f), is(v, p, f + 1, len - f - 1))));
    CHECK(implies(!hit, all(is0(r), is(v, p, 0, len))));
    break;
  case 5:
    r = OP(take_prefix, 0);
    CHECK(implies(hit, all(is(r, p, 0, f), is(v, p, f + 1, len - f - 1))));
    CHECK(implies(!hit, all(is0(v), is(r, p, 0, len))));
    break;
  case 6:
    r = OP(split_suffix, 0);
    CHECK(implies(hit, all(is(r, p, l + 1, len - l - 1), is(v, p, 0, l))));
    CHECK(implies(!hit, all(is0(r), is(v, p, 0, len))));
    break;
  case 7:
    r = OP(take_suffix, 0);
    CHECK(implies(hit, all(is(r, p, l + 1, len - l - 1), is(v, p, 0, l))));
    CHECK(implies(!hit, all(is0(v), is(r, p, 0, len))));
    break;
  case 8: { // find_if / rfind_if agree with the positions
    CHECK(v.find_if(s) == f);
    CHECK(v.rfind_if(s) == l);
    break;
  }
  case 9: { // tokenising by repeated take_prefix_at visits every byte exactly once
    size_t pos = 0;
    size_t tokens = 0;
    while (!v.empty()) {
      size_t before = v.size();
      TextView t    = OP(take_prefix, 0);
      CHECK(is(t, p, pos, t.size()));
      CHECK(v.size() < before);
      bool good = true;
      for (char c : t)
        good = all(good, !s(c));
      CHECKM(good, "token contains no delimiter");
      pos += t.size();
      if (pos < len && (v.size() || s(p[pos])))
        ++pos;
      tokens++;
      CHECK(v.size() + pos == len);
    }
    REACH("tokenised");
    OBS(tokens);
    break;
  }
  }
}

static const size_t M = BOUND(5, 7);
struct Set3 {
  char c[3];
  size_t n;
  bool operator()(char x) const
  {
    bool r = false;
    for (size_t i = 0; i < n; i++)
      r = any(r, x == c[i]);
    return r;
  }
};
HARNESS(h_tv_trim)
{
  unsigned op = sym_split(11, "op");
  size_t len  = sym_pick(M + 1, "len");
  Block b(len, "text");
  TextView v{b.p, len};
  const char *p = b.p;
  Set3 s;
  s.n = op < 3 ? 1 : sym_pick(4, "nset");
  for (size_t i = 0; i < s.n; i++)
    s.c[i] = (char)sym_u8("delim");
  auto other = [&](char c) { return !s(c); };
  size_t f = first_of(p, len, other), l = last_of(p, len, other); // first and last kept byte
  size_t lo = f == NP ? len : f;
  size_t hi = l == NP ? 0 : l + 1;
  std::string_view sv{s.c, s.n};
  swoc::CharSet cs{TextView{sv}};
  TextView r;
  switch (op) {
  case 0: v.ltrim(s.c[0]); CHECK(is(v, p, lo, len - lo)); break;
  case 1: v.rtrim(s.c[0]); CHECK(is(v, p, 0, hi)); break;
  case 2: v.trim(s.c[0]); CHECK(is(v, p, lo, hi > lo ? hi - lo : 0)); break;
  case 3: v.ltrim(sv); CHECK(is(v, p, lo, len - lo)); break;
  case 4: v.rtrim(sv); CHECK(is(v, p, 0, hi)); break;
  case 5: v.trim(sv); CHECK(is(v, p, lo, hi > lo ? hi - lo : 0)); break;
  case 6: v.ltrim_if(s); CHECK(is(v, p, lo, len - lo)); break;
  case 7: v.rtrim_if(s); CHECK(is(v, p, 0, hi)); break;
  case 8: v.trim_if(s); CHECK(is(v, p, lo, hi > lo ? hi - lo : 0)); break;
  case 9:
    r = v.clip_prefix_of(s);
    CHECK(is(r, p, 0, lo));
    CHECK(is(v, p, lo, len - lo));
    break;
  case 10:
    r = v.clip_suffix_of(s);
    CHECK(is(r, p, hi, len - hi));
    CHECK(is(v, p, 0, hi));
    break;
  }
}

static unsigned char low(char c) { unsigned char u = c; return u + (((unsigned)u - 'A' < 26u) << 5); }
HARNESS(h_tv_misc)
{
  unsigned op = sym_split(6, "op");
  size_t len  = sym_pick(M + 1, "len");
  Block b(len, "text");
  TextView v{b.p, len};
  const char *p = b.p;
  size_t k      = sym_pick(5, "alen");
  Block a(k, "affix");
  std::string_view x{a.p, k};
  bool pre = k <= len, suf = k <= len, prei = k <= len, sufi = k <= len;
  if (k <= len)
    for (size_t i = 0; i < k; i++) {
      pre  = all(pre, p[i] == a[i]);
      prei = all(prei, low(p[i]) == low(a[i]));
      suf  = all(suf, p[len - k + i] == a[i]);
      sufi = all(sufi, low(p[len - k + i]) == low(a[i]));
    }
  switch (op) {
  case 0: CHECK(v.starts_with(x) == pre); break;
  case 1: CHECK(v.ends_with(x) == suf); break;
  case 2: { // nul bytes terminate the C comparison used for caseless matching: only text without them is specified
    bool nz = true;
    for (size_t i = 0; i < k; i++)
      nz = all(nz, a[i] != 0);
    ASSUME(nz);
    CHECK(v.starts_with_nocase(x) == prei);
    CHECK(v.ends_with_nocase(x) == sufi);
    break;
  }
  case 3: {
    char c = (char)sym_u8("c");
    CHECK(v.starts_with(c) == (len > 0 && p[0] == c));
    CHECK(v.ends_with(c) == (len > 0 && p[len - 1] == c));
    CHECK(v.starts_with_nocase(c) == (len > 0 && low(p[0]) == low(c)));
    CHECK(v.ends_with_nocase(c) == (len > 0 && low(p[len - 1]) == low(c)));
    break;
  }
  case 4: // as an iterator: deref and increment walk the bytes, nul at the end
    for (size_t i = 0; i < len; i++) {
      CHECK(*v == p[i]);
      CHECK(bool(v));
      ++v;
    }
    CHECK(*v == 0);
    CHECK(!v);
    ++v;
    CHECK(v.empty());
    break;
  case 5: { // a character set accepts exactly its members
    swoc::CharSet cs{TextView{x}};
    char c  = (char)sym_u8("c");
    bool in = false;
    for (size_t i = 0; i < k; i++)
      in = any(in, a[i] == c);
    CHECK(cs(c) == in);
    CHECK(cs((unsigned char)c) == in);
    break;
  }
  }
}
