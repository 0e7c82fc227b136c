// Floating point: text to double and double to text.
//@ entry h_fl_parse props=T06 shards=8 time=200 : every text of 0..5 (thorough 6) bytes, with stale parse output or without
//@ entry h_fl_number props=T06 shards=8 time=200 : optional sign, 1..6 (thorough 8) arbitrary digits with the decimal point at every place or none, exponent none, or e or E, optional sign and one of 0, 1, 2, 3, 7, 12, 22, 024 (thorough also 18, 40), followed by an arbitrary byte
//@ entry h_fl_long props=T06 shards=4 time=200 : 16..24 digits near the 53 bit, 63 bit and 64 bit maximum of which the last 2 are arbitrary, with the decimal point at the front, inside, at the end or none, signed
//@ entry h_fl_format props=B07 shards=8 time=200 : every value k / 2^s with k in 1..2^12 (thorough 2^14) of either sign, s one of 0, 1, 3, 8 and k * 2^40, with precision default, 0..4, 9, 12, and every value k / 2^8, k in 1..8, with precision 17, 18, 25, 255
//@ entry h_fl_field props=B07 shards=8 time=200 : every value k / 4 with k of 8 bits of either sign, infinities, NaN and zeros, every sign option, alignment, any fill, width 0..9, precision default or 1, directly and through format text
#include "vf.h"
#include "swoc/TextView.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include <cmath>
using namespace swoc;
using bwf::Spec;

static const double EPS = 2.220446049250313e-16; // 2^-52
static uint64_t bits(double d)
{
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static const double P10[] = {1e0,  1e1,  1e2,  1e3,  1e4,  1e5,  1e6,  1e7,  1e8,  1e9,  1e10, 1e11,
                             1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
// got is within an epsilon of (neg ? - : +) m * 10^e, |e| <= 22.
static void near(double got, bool neg, uint64_t m, int e, const char *msg)
{
  double mag  = neg ? -got : got;
  double d    = double(m); // off by at most half an epsilon
  double want = e < 0 ? d / P10[-e] : d * P10[e];
  if (bits(mag) == bits(want)) // off by at most another half: no further check needed
    return;
  double diff = mag - want;
  diff        = diff < 0 ? -diff : diff;
  sym_check(diff <= want * ((m >> 53 ? 2 : 1.5) * EPS * 1.0001), msg);
}

struct Ref {
  bool neg = false, ok = false;
  uint64_t m = 0; // value m * 10^e
  int e      = 0;
  size_t lo = 0, hi = 0; // the parsed text ends at lo or hi
};
static bool digit(char c) { return all(c >= '0', c <= '9'); }
static Ref ref(const char *p, size_t n)
{
  Ref r;
  size_t i = 0;
  if (i < n && any(p[i] == '-', p[i] == '+'))
    r.neg = p[i++] == '-';
  for (; i < n && digit(p[i]); ++i) {
    r.m  = r.m * 10 + unsigned((unsigned char)(p[i]) - '0');
    r.ok = true;
  }
  r.lo = r.hi = i;
  if (i < n && p[i] == '.') {
    ++i;
    bool frac = false;
    for (; i < n && digit(p[i]); ++i) {
      r.m  = r.m * 10 + unsigned((unsigned char)(p[i]) - '0');
      r.ok = frac = true;
      r.e--;
    }
    r.hi = i;
    if (frac)
      r.lo = i;
  }
  if (r.ok && i < n && any(p[i] == 'e', p[i] == 'E')) {
    ++i;
    bool neg = false, any_p = false;
    if (i < n && any(p[i] == '-', p[i] == '+'))
      neg = p[i++] == '-';
    int x = 0;
    for (; i < n && digit(p[i]); ++i) {
      x     = x * 10 + (p[i] - '0');
      any_p = true;
    }
    r.hi = i;
    if (any_p) {
      r.e += neg ? -x : x;
      r.lo = i;
    }
  }
  if (!r.ok)
    r.lo = r.hi = 0;
  return r;
}
static void parse(const char *p, size_t n)
{
  char stale[] = "stale";
  TextView parsed{stale};
  bool with  = sym_pick(2, "parsed") == 0;
  double got = svtod(TextView(p, n), with ? &parsed : nullptr);
  if (n && all((unsigned char)*p <= ' ', any(*p == ' ', (unsigned char)*p >= 9))) { // leading space: may be skipped.
    sym_reach("done");
    return;
  }
  Ref r = ref(p, n);
  if (!r.ok) {
    sym_check(got == 0, "invalid text must yield zero");
    if (with)
      sym_check(parsed.empty(), "invalid text must yield an empty parsed view");
  } else {
    if (with) {
      sym_check(parsed.data() == p, "the parsed text must start at the start of the text");
      sym_check(any(parsed.size() == r.lo, parsed.size() == r.hi), "the parsed text must be the number");
    }
    if (-22 <= r.e && r.e <= 22)
      near(got, r.neg, r.m, r.e, "the value must be within one epsilon of the number");
  }
  sym_reach("done");
}

HARNESS(h_fl_parse)
{
  size_t n = sym_split(BOUND(6, 7), "n");
  Block b(n, "text");
  // The exponent is decided value by value.
  bool exp = false;
  for (size_t i = 1; i < n; i++) {
    if (exp && digit(b[i]))
      b[i] = (char)sym_concrete((uint8_t)b[i]);
    exp = exp || any(b[i] == 'e', b[i] == 'E');
  }
  parse(b.p, n);
}

static const char *EXP[] = {"", "0", "1", "2", "3", "7", "12", "22", "024", "18", "40"};
HARNESS(h_fl_number)
{
  unsigned nd  = 1 + sym_split(BOUND(6, 8), "digits");
  unsigned dot = sym_split(nd + 2, "dot"); // nd + 1: none
  unsigned ex  = sym_split(BOUND(9, 11), "exponent");
  unsigned sg  = sym_pick(3, "sign"), esg = ex ? sym_pick(3, "expsign") : 0;
  char t[32];
  size_t n = 0;
  if (sg)
    t[n++] = " +-"[sg];
  for (unsigned i = 0; i <= nd; i++) {
    if (i == dot)
      t[n++] = '.';
    if (i < nd) {
      char c = sym_u8("digit");
      ASSUME(digit(c));
      t[n++] = c;
    }
  }
  if (ex) {
    t[n++] = esg ? 'E' : 'e';
    if (esg)
      t[n++] = " +-"[esg];
    for (const char *x = EXP[ex]; *x; ++x)
      t[n++] = *x;
  }
  char c = sym_u8("next");
  ASSUME(all(!digit(c), c != '.', c != 'e', c != 'E'));
  t[n++] = c;
  Block b(n);
  memcpy(b.p, t, n);
  parse(b.p, n);
}

HARNESS(h_fl_long)
{
  static const char *BASE[] = {"90071992547409", "92233720368547758", "184467440737095516", "1844674407370955161499", "00000000000000000000001", "9999999999999999999999"};
  const char *base = BASE[sym_split(6, "base")];
  size_t k         = strlen(base) + 2;
  size_t where     = sym_split(4, "dot");
  size_t dot       = where == 0 ? 0 : where == 1 ? k - 3 : where == 2 ? k : k + 1;
  Block b(k + 1 + (dot <= k));
  size_t n = 0;
  bool neg = sym_pick(2, "sign") == 0;
  b[n++]   = neg ? '-' : '+';
  char two[2];
  for (auto &c : two) {
    c = sym_u8("digit");
    ASSUME(digit(c));
  }
  uint64_t m = 0;
  int e      = 0;
  for (size_t i = 0; i <= k; i++) {
    if (i == dot)
      b[n++] = '.';
    if (i == k)
      break;
    char c = i < k - 2 ? base[i] : two[i - (k - 2)];
    b[n++] = c;
    if (m <= (~uint64_t(0) - 9) / 10) { // the rest is below the precision of 2^-63
      m = m * 10 + unsigned((unsigned char)c - '0');
      e -= i >= dot;
    } else
      e += i < dot;
  }
  TextView parsed;
  double got = svtod(TextView(b.p, n), &parsed);
  sym_check(parsed.data() == b.p && parsed.size() + (dot == k) >= n && parsed.size() <= n, "the parsed text must be the number");
  if (-22 <= e && e <= 22)
    near(got, neg, m, e, "the value must be within one epsilon of the number");
  sym_reach("done");
}

// ---- output ----
static const uint64_t T10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000};
static const char DIGITS[] = "0123456789abcdefghijklmnopqrstuvwxyz";
struct Txt {
  uint8_t b[64];
  size_t n = 0;
  void put(uint8_t c) { b[n++] = c; }
  void dec(uint64_t v, size_t min)
  {
    uint8_t t[32];
    size_t k = 0;
    do {
      t[k++] = DIGITS[v % 10];
      v /= 10;
    } while (v);
    while (k < min)
      t[k++] = '0';
    while (k)
      put(t[--k]);
  }
};
// v is the magnitude k / 2^s with places fraction digits, rounded to nearest, or only the whole number if there are no places.
static void value(TextView v, uint64_t k, unsigned s, unsigned places, const char *msg)
{
  uint64_t one = uint64_t(1) << s, half = one >> 1;
  bool whole   = (k & (one - 1)) == 0;
  if (whole || places == 0) {
    Txt t;
    t.dec(k >> s, 1);
    bool same = v.size() == t.n;
    for (size_t i = 0; i < t.n && i < v.size(); i++)
      same = all(same, uint8_t(v[i]) == t.b[i]);
    sym_check(same, msg);
    return;
  } else { // The text if a tie is rounded up.
    Txt t;
    uint64_t w = k >> s, f = ((k & (one - 1)) * T10[places] + half) >> s;
    if (f >= T10[places]) {
      f -= T10[places];
      ++w;
    }
    t.dec(w, 1);
    t.put('.');
    t.dec(f, places);
    bool same = v.size() == t.n;
    for (size_t i = 0; i < t.n && i < v.size(); i++)
      same = all(same, uint8_t(v[i]) == t.b[i]);
    if (same)
      return;
  }
  // Any text whose number is as close.
  size_t dot = 0;
  while (dot < v.size() && v[dot] != '.')
    ++dot;
  sym_check(dot > 0, msg);
  sym_check(dot + places + 1 == v.size(), msg);
  uint64_t x = 0;
  for (size_t i = 0; i < v.size(); i++) {
    if (i != dot) {
      sym_check(digit(v[i]), msg);
      x = x * 10 + uint8_t(v[i] - '0');
    }
  }
  sym_check(dot == 1 || v[0] != '0', msg);
  uint64_t want = k * T10[places], got = x << s;
  sym_check((got > want ? got - want : want - got) <= half, msg);
}
HARNESS(h_fl_format)
{
  static const int PREC[] = {-1, 0, 1, 2, 3, 4, 9, 12, 17, 18, 25, 255};
  unsigned p = sym_split(12, "precision");
  unsigned m = sym_split(5, "scale");
  bool neg   = sym_split(2, "sign") == 1;
  unsigned s = m == 4 ? 0 : m == 3 ? 8 : m == 2 ? 3 : m;
  if (PREC[p] > 12 && m != 3)
    sym_stop();
  uint64_t k = 1 + (sym_u16("k") & (PREC[p] > 12 ? 7 : BOUND(0xfff, 0x3fff)));
  double f   = double(k) / double(1u << s);
  if (m == 4) {
    f *= 1099511627776.0;
    k <<= 40;
  }
  LocalBufferWriter<64> w;
  Spec spec;
  spec._prec = PREC[p];
  bwformat(w, spec, neg ? -f : f);
  TextView v = w.view();
  unsigned places = PREC[p] < 0 ? 2 : PREC[p];
  if (neg) {
    sym_check(!v.empty() && v[0] == '-', "a negative value must be written with a minus sign");
    ++v;
  }
  if (places <= 12)
    value(v, k, s, places, "the text must be the value rounded to the precision");
  else if ((k & 0xff) == 0)
    value(v, k, s, 0, "the text of a whole number");
  else {
    size_t dot = k >> s == 0 ? 1 : 1;
    sym_check(v.size() >= 2 + 15 && v.size() <= 2 + places, "the number of places");
    sym_check(v[0] == '0', "whole part");
    sym_check(v[1] == '.', "whole part");
    uint64_t x = 0;
    for (size_t i = 2; i < v.size(); i++)
      sym_check(digit(v[i]), "fraction digits");
    for (size_t i = 2; i < 2 + 9; i++)
      x = x * 10 + uint8_t(v[i] - '0');
    uint64_t want = (k * T10[9]) >> s;
    sym_check(x + 1 >= want && x <= want + 1, "the text must be close to the value");
  }
  sym_reach("done");
}
HARNESS(h_fl_field)
{
  unsigned kind  = sym_split(8, "kind");
  unsigned align = sym_split(5, "align"), sign = sym_split(3, "sign");
  unsigned width = sym_split(10, "width");
  bool text      = sym_pick(2, "text") == 1;
  uint8_t k      = sym_u8("k");
  uint8_t fill   = sym_u8("fill");
  double f;
  bool neg = kind & 1;
  if (kind < 4) {
    if (kind < 2)
      ASSUME((k & 3) != 0);
    else
      k &= 0xfc;
    if (neg)
      ASSUME(k != 0);
    f = double(k) / 4;
  } else
    f = kind < 6 ? HUGE_VAL : kind == 6 ? 0.0 : NAN;
  if (kind == 7)
    neg = false;
  LocalBufferWriter<64> w, plain;
  Spec spec, none;
  spec._prec = none._prec = kind < 2 && sym_pick(2, "prec") ? 1 : -1;
  spec._min  = width;
  spec._fill = fill;
  spec._align = align == 0 ? Spec::Align::NONE : align == 1 ? Spec::Align::LEFT : align == 2 ? Spec::Align::RIGHT : align == 3 ? Spec::Align::CENTER : Spec::Align::SIGN;
  spec._sign  = sign == 0 ? Spec::SIGN_NEG : sign == 1 ? Spec::SIGN_ALWAYS : Spec::SIGN_NEVER;
  if (text) {
    ASSUME(all(fill > ' ', fill < 127, fill != '{', fill != '}', fill != '%', fill != ':'));
    if (align == 0)
      sym_stop();
    char t[16];
    size_t n = 0;
    t[n++]   = '{';
    t[n++]   = ':';
    t[n++]   = (char)fill;
    t[n++]   = " <>^="[align];
    t[n++]   = "-+ "[sign];
    t[n++]   = '0' + width;
    if (spec._prec == 1) {
      t[n++] = '.';
      t[n++] = '1';
    }
    t[n++] = '}';
    w.print(TextView(t, n), neg ? -f : f);
  } else
    bwformat(w, spec, neg ? -f : f);
  bwformat(plain, none, f); // the magnitude
  TextView mag = plain.view();
  Txt t;
  char sg = sign == 2 ? 0 : neg ? '-' : sign == 1 ? '+' : 0;
  // The sign of NaN, and of zero, are not part of the property.
  TextView v = w.view();
  bool free  = kind == 7 && sign == 1;
  if (free && v.size() > 0) {
    bool plus = false;
    for (size_t i = 0; i < v.size() && i < 10; i++)
      plus = any(plus, v[i] == '+');
    sg = plus && fill != '+' ? '+' : 0;
    if (fill == '+')
      sym_stop();
  }
  size_t len = mag.size() + (sg != 0), pad = len < width ? width - len : 0;
  size_t lead = align == 2 ? pad : align == 3 ? pad / 2 : 0, mid = align == 4 ? pad : 0;
  if (align == 0)
    pad = 0;
  for (size_t i = 0; i < lead; i++)
    t.put(fill);
  if (sg)
    t.put(sg);
  for (size_t i = 0; i < mid; i++)
    t.put(fill);
  for (char c : mag)
    t.put(c);
  while (t.n < len + pad)
    t.put(fill);
  bool ok = v.size() == t.n;
  for (size_t i = 0; i < t.n && i < v.size(); i++)
    ok = all(ok, uint8_t(v[i]) == t.b[i]);
  sym_check(ok, "a field must be the magnitude with its sign, aligned in the width");
  sym_reach("done");
}
