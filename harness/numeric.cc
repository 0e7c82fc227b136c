// Text to integer conversion: exact value or clamped maximum, exact extent of the parsed text.
//@ entry h_num_radix props=T03 shards=8 time=200 : svto_radix<R> and svtou with explicit base R, R in 1..36 and invalid bases -1,0(svto only),37,100; text = 0..3 (thorough 5) arbitrary bytes, and the digits of the 64 bit maximum (0..3 zeros before, 0..2 maximal digits after or one less) with 2 (thorough 3) arbitrary digits at the end, or at the start when that cannot overflow, followed by an arbitrary byte
//@ entry h_num_auto props=T03 shards=8 time=200 : svtoi / svtou with base 0, 2, 8, 10, 16, 36 on 0..5 (thorough 6) arbitrary bytes with stale parse output
//@ entry h_num_long props=T03 shards=8 time=200 : svtoi / svtou with optional blank, sign and radix prefix, followed by the digits of the 63 bit and 64 bit maximum (one less, exact, one more digit) with 2 (thorough 3) arbitrary digits at the end, or at the start when that cannot overflow
#include "vf.h"
#include "swoc/TextView.h"
using swoc::TextView;
static const uint64_t UMAX = ~uint64_t(0);

// Value of c as a digit, 255 if it is none.
static unsigned digit_of(char ch)
{
  unsigned c = (unsigned char)ch;
  unsigned r = 255;
  r          = all(c >= '0', c <= '9') ? c - '0' : r;
  r          = all(c >= 'a', c <= 'z') ? c - 'a' + 10 : r;
  r          = all(c >= 'A', c <= 'Z') ? c - 'A' + 10 : r;
  return r;
}
static bool space(char c) { return any(c == ' ', all((unsigned char)c >= 9, (unsigned char)c <= 13)); }

struct Num {
  size_t n     = 0; // digits consumed
  uint64_t v   = 0; // value modulo 2^64
  bool over    = false;
  uint64_t clamped() const { return over ? UMAX : v; }
};
// dig: if given, the digit values as converted one by one by the code under test (the short texts check that every single digit is
// right); it keeps the expressions alike.
static Num ref(const char *p, size_t n, unsigned radix, const uint64_t *dig = nullptr)
{
  Num r;
  for (size_t i = 0; i < n; i++) {
    uint64_t d = digit_of(p[i]);
    if (d >= radix) // already decided: the code under test ran first.
      break;
    d = dig ? dig[i] : d;
    r.over = any(r.over, r.v > UMAX / radix, d > UMAX - r.v * radix);
    r.v    = r.v * radix + d;
    r.n    = i + 1;
  }
  return r;
}
// n digits: zeros, then the leading digits of v in that radix (one more maximal digit if it has not enough), of which a window is arbitrary.
static void near(char *p, size_t n, uint64_t v, unsigned radix, const char *name)
{
  char d[72];
  size_t k = 0;
  for (uint64_t m = v; m; m /= radix)
    ++k;
  size_t i = k;
  for (uint64_t m = v; m; m /= radix)
    d[--i] = "0123456789abcdefghijklmnopqrstuvwxyz"[m % radix];
  for (i = 0; i < n; i++)
    p[i] = i < k ? d[i] : d[k - 1];
  size_t w  = BOUND(2, 3);
  size_t at = n < k && sym_pick(2, "window") ? 0 : n - w;
  sym_bytes(p + at, w, name);
  bool ok = true;
  for (i = 0; i < w; i++)
    ok = all(ok, digit_of(p[at + i]) < radix);
  ASSUME(ok);
}
static void digits(const char *p, size_t n, uint64_t *dig)
{
  for (size_t i = 0; i < n; i++)
    dig[i] = swoc::svto_radix<36>(TextView{p + i, 1});
}
template <int R> static void radix_one(char *p, size_t n, const uint64_t *dig = nullptr)
{
  TextView src{p, n};
  uint64_t v = swoc::svto_radix<R>(src);
  Num e = ref(p, n, R, dig);
  CHECK(src.data() == p + e.n);
  CHECK(src.size() == n - e.n);
  CHECK(v == e.clamped());
}
template <int... R> static void radix_any(unsigned r, char *p, size_t n, const uint64_t *dig, std::integer_sequence<int, R...>)
{
  bool done = false;
  ((r == R + 1 ? (radix_one<R + 1>(p, n, dig), done = true) : done), ...);
}
static void radix_base(int base, char *p, size_t n, const uint64_t *dig = nullptr)
{
  bool valid = 1 <= base && base <= 36;
  TextView parsed{p, n};
  uint64_t v  = swoc::svtou(TextView{p, n}, &parsed, base);
  size_t lead = 0;
  while (lead < n && space(p[lead]))
    ++lead;
  Num e;
  if (valid)
    e = ref(p + lead, n - lead, base, dig);
  CHECK(v == (valid ? e.clamped() : 0));
  CHECK(parsed.size() == e.n);
  CHECK(any(e.n == 0, parsed.data() == p + lead));
  CHECK(v == swoc::svtou(TextView{p, n}, nullptr, base));
}

static const int BASES[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, -1, 37, 100};
HARNESS(h_num_radix)
{
  unsigned b = sym_split(sizeof(BASES) / sizeof(BASES[0]), "base");
  int base   = BASES[b];
  bool explicit_base = sym_pick(2, "svtou") != 0 || base < 1 || base > 36;
  unsigned shape = sym_pick(BOUND(8, 10), "shape");
  size_t n;
  if (shape >= 4) { // short, arbitrary
    n = shape - 4;
    Block t(n, "text");
    if (explicit_base)
      radix_base(base, t.p, n);
    else
      radix_any(base, t.p, n, nullptr, std::make_integer_sequence<int, 36>());
  } else if (1 < base && base <= 36) { // around the overflow limit
    unsigned lim = 0;
    for (uint64_t m = UMAX; m; m /= base)
      ++lim;
    size_t nd = lim - 1 + shape;
    n         = nd + 1;
    Block t(n);
    near(t.p, nd, UMAX, base, "text");
    t[nd] = sym_u8("last");
    uint64_t dig[80];
    digits(t.p, n, dig);
    if (explicit_base)
      radix_base(base, t.p, n, dig);
    else
      radix_any(base, t.p, n, dig, std::make_integer_sequence<int, 36>());
    REACH("limit");
  }
}

// Reference for the sign / radix prefix grammar.
static void parse_check(char *p, size_t n, int base, bool sign, const uint64_t *dig = nullptr)
{
  static const char stale[] = "stale";
  TextView parsed{stale, 5};
  int64_t sv  = 0;
  uint64_t uv = 0;
  if (sign) {
    sv = swoc::svtoi(TextView{p, n}, &parsed, base);
    CHECK(sv == swoc::svtoi(TextView{p, n}, nullptr, base));
  } else {
    uv = swoc::svtou(TextView{p, n}, &parsed, base);
    CHECK(uv == swoc::svtou(TextView{p, n}, nullptr, base));
  }
  size_t i = 0;
  while (i < n && space(p[i]))
    ++i;
  size_t start = i;
  bool neg     = false;
  if (sign && i < n && (p[i] == '-' || p[i] == '+')) {
    neg = p[i] == '-';
    ++i;
    if (i < n && space(p[i]))
      sym_stop(); // space between the sign and the digits: unspecified.
  }
  size_t mark = i;
  int radix   = base ? base : 10;
  if (base == 0 && i < n && p[i] == '0') {
    radix = 8;
    ++i;
    if (i < n && (p[i] == 'x' || p[i] == 'X')) {
      radix = 16;
      ++i;
    } else if (i < n && (p[i] == 'b' || p[i] == 'B')) {
      radix = 2;
      ++i;
    }
  }
  Num e       = ref(p + i, n - i, radix, dig ? dig + i : nullptr);
  size_t used = e.n + (i - mark);
  bool bare   = e.n == 0 && i - mark == 2; // "0x" without digits: value 0, the extent is not specified.
  if (sign) {
    uint64_t m   = e.clamped();
    uint64_t top = neg ? uint64_t(1) << 63 : (uint64_t(1) << 63) - 1;
    m            = m > top ? top : m;
    CHECK(sv == int64_t(neg ? 0 - m : m));
    if (!bare) {
      if (used == 0) {
        CHECKM(parsed.empty(), "parsed text is empty when nothing is parsed");
      } else {
        CHECK(all(parsed.data() == p + start, parsed.data_end() == p + mark + used));
      }
    }
  } else {
    CHECK(uv == e.clamped());
    if (!bare) {
      CHECK(parsed.size() == used);
      CHECK(any(used == 0, parsed.data() == p + start));
    }
  }
}
HARNESS(h_num_auto)
{
  static const int bases[] = {0, 0, 2, 8, 10, 16, 36};
  unsigned op = sym_split(16, "op");
  size_t n    = sym_pick(BOUND(6, 7), "len");
  unsigned b  = op >> 1;
  if (b == 7)
    return;
  if (b == 1 && n < 2)
    return;
  Block t(n, "text");
  if (b == 1) { // auto base with a leading zero: deeper
    ASSUME(t[0] == '0');
  } else if (b == 0 && n > BOUND(4, 5))
    return;
  parse_check(t.p, n, bases[b], op & 1);
}
HARNESS(h_num_long)
{
  unsigned op     = sym_split(8, "op"); // radix class x signed
  unsigned head   = sym_pick(4, "head"); // blank, sign
  bool sign       = op & 1;
  unsigned rc     = op >> 1;
  static const unsigned radix[] = {10, 8, 16, 2};
  static const char *prefix[] = {"", "0", "0x", "0B"};
  static const unsigned lim[] = {20, 22, 16, 64};
  unsigned nd     = lim[rc] - 2 + sym_pick(4, "digits");
  char lead[8];
  size_t k = 0;
  if (head & 1)
    lead[k++] = '\t';
  if (head & 2) {
    if (!sign)
      return;
    lead[k] = sym_u8("sign");
    ASSUME(any(lead[k] == '-', lead[k] == '+'));
    ++k;
  }
  for (const char *q = prefix[rc]; *q; ++q)
    lead[k++] = *q;
  size_t n = k + nd;
  Block t(n);
  memcpy(t.p, lead, k);
  near(t.p + k, nd, UMAX >> sym_pick(2, "63"), radix[rc], "digits");
  ASSUME(any(rc != 0, t[k] != '0'));
  REACH("long");
  uint64_t dig[80];
  digits(t.p, n, dig);
  parse_check(t.p, n, 0, sign, dig);
}
