// Scalar: values are count times scale; conversions, rounding, comparison and arithmetic against the mathematical result.
//@ entry h_scalar_round props=C08 shards=64 time=600 : rounding conversions (constructor, assignment, round_up / round_down of scalars and integers, templated rounding) for 7 pairs of scales (equal, multiple, fraction, coprime, powers of 2) and counters of 16, 32 and 64 bits signed and unsigned, counts within 256 (thorough 2048) of 0, +-20000 (16 bit), +-10^6, +-2*10^9 (32 bit), +-2^33, +-2^40 (64 bit) where the result is representable
//@ entry h_scalar_exact props=C08 shards=64 : lossless construction, assignment, assign, count, value, increments, inc / dec, compound and binary arithmetic, plus / minus, call operator on counts in the same windows, without overflow
//@ entry h_scalar_compare props=C08 shards=64 time=600 : all comparisons between scalars of 7 pairs of scales and with other counter types, and of a scalar with an integer, both counts in the same windows
//@ entry h_scalar_ratio props=C08 shards=64 time=600 : division of scalars and by integers, multiplication by integers: counts in the same windows, 4 divisors / factors of both signs, 3 pairs of scales
#include <limits>
#include <numeric>
#include "vf.h"
#include "swoc/Scalar.h"
using swoc::round_down;
using swoc::round_up;
using swoc::Scalar;
struct Unit;
using W = int64_t; // wide enough for every value in question
template <typename C> constexpr W HIGH = sizeof(C) == 8 ? W(1) << 44 : W(std::numeric_limits<C>::max());
template <typename C> constexpr W LOW = sizeof(C) == 8 ? (std::is_signed_v<C> ? -(W(1) << 44) : 0) : W(std::numeric_limits<C>::min());
// A count in one of several windows: around zero, moderately large and very large ones of both signs.
template <typename C> static C any_count(const char *name)
{
  static const W small[] = {0, 20000, -20000}, medium[] = {0, 1000000, -1000000, 2000000000, -2000000000}, large[] = {0, 1000000, -1000000, W(1) << 33, -(W(1) << 33), W(1) << 40, -(W(1) << 40)};
  const W *base = sizeof(C) == 2 ? small : sizeof(C) == 4 ? medium : large;
  unsigned n = sizeof(C) == 2 ? 3 : sizeof(C) == 4 ? 5 : 7;
  W b = base[sym_split(n, "window")];
  static const int D = BOUND(256, 2048);
  int off = static_cast<int16_t>(sym_u16(name));
  ASSUME(all(off >= -D, off < D));
  ASSUME(all(b + off >= LOW<C>, b + off <= HIGH<C>));
  return static_cast<C>(b + off);
}
// Is q the value v (in units) rounded up to a multiple of n?
template <typename C> static bool is_up(C q, intmax_t n, W v) { return all(W(q) * n >= v, (W(q) - 1) * n < v); }
template <typename C> static bool is_down(C q, intmax_t n, W v) { return all(W(q) * n <= v, (W(q) + 1) * n > v); }
// Whether a value in units is well inside what a counter of scale n can represent.
template <typename C> static bool fits(intmax_t n, W v)
{
  W lo = LOW<C>, hi = HIGH<C>;
  return all(v >= lo * n, v <= (hi - 2) * n) & (std::is_signed_v<C> ? v >= (lo + 2) * n : true);
}
// N target scale, S source scale
template <intmax_t N, intmax_t S, typename C, typename I> static void round_case()
{
  using Target = Scalar<N, C, Unit>;
  using Source = Scalar<S, I, Unit>;
  I c = any_count<I>("count");
  W v = W(c) * S;
  ASSUME(fits<C>(N, v));
  ASSUME(fits<I>(N, v)); // conversion is done with the source counter
  Source src(c);
  switch (sym_pick(3, "how")) {
  case 0: {
    Target up(round_up(src)), down(round_down(src));
    CHECKM(is_up(up.count(), N, v), "round_up is the least multiple that is not less");
    CHECKM(is_down(down.count(), N, v), "round_down is the greatest multiple that is not greater");
    break;
  }
  case 1: {
    Target up, down;
    CHECK(&(up = round_up(src)) == &up);
    CHECK(&(down = round_down(src)) == &down);
    CHECKM(is_up(up.count(), N, v), "assign round_up");
    CHECKM(is_down(down.count(), N, v), "assign round_down");
    break;
  }
  case 2: {
    Target up(C(1)), down(C(1));
    up += round_up(src);
    down += round_down(src);
    CHECKM(is_up(W(up.count()) - 1, N, v), "add round_up");
    CHECKM(is_down(W(down.count()) - 1, N, v), "add round_down");
    break;
  }
  }
}
// Rounding of plain integers to a scale.
template <intmax_t N, typename C, typename I> static void unit_case()
{
  using Target = Scalar<N, C, Unit>;
  I n = any_count<I>("n");
  W v = n;
  ASSUME(fits<C>(N, v));
  ASSUME(all(v <= HIGH<I> - N, v >= LOW<I> + (std::is_signed_v<I> ? N : 0)));
  switch (sym_pick(5, "how")) {
  case 0: {
    Target up(round_up(n)), down(round_down(n));
    CHECKM(is_up(up.count(), N, v), "round_up of an integer");
    CHECKM(is_down(down.count(), N, v), "round_down of an integer");
    break;
  }
  case 1: {
    Target up, down, up2, down2;
    up = round_up(n);
    down = round_down(n);
    up2.assign(round_up(n));
    down2.assign(round_down(n));
    CHECK(is_up(up.count(), N, v));
    CHECK(is_down(down.count(), N, v));
    CHECK(is_up(up2.count(), N, v));
    CHECK(is_down(down2.count(), N, v));
    break;
  }
  case 2: {
    I up = round_up<N>(n), down = round_down<N>(n);
    CHECKM(all(up >= n, W(up) - n < N, up % N == 0), "round_up to a multiple");
    CHECKM(all(down <= n, W(n) - down < N, down % N == 0), "round_down to a multiple");
    break;
  }
  case 3: {
    Target b(C(1));
    Target s1 = b + round_up(n), s2 = round_up(n) + b, s3 = b + round_down(n), s4 = round_down(n) + b;
    CHECK(is_up(W(s1.count()) - 1, N, v));
    CHECK(is_up(W(s2.count()) - 1, N, v));
    CHECK(is_down(W(s3.count()) - 1, N, v));
    CHECK(is_down(W(s4.count()) - 1, N, v));
    break;
  }
  case 4: {
    if (std::is_signed_v<C>) {
      Target b(C(1)), x(C(1)), y(C(1));
      Target s1 = b - round_up(n), s2 = round_up(n) - b, s3 = b - round_down(n), s4 = round_down(n) - b;
      x -= round_up(n);
      y -= round_down(n);
      CHECK(is_up(1 - W(s1.count()), N, v));
      CHECK(is_up(W(s2.count()) + 1, N, v));
      CHECK(is_down(1 - W(s3.count()), N, v));
      CHECK(is_down(W(s4.count()) + 1, N, v));
      CHECK(is_up(1 - W(x.count()), N, v));
      CHECK(is_down(1 - W(y.count()), N, v));
    }
    break;
  }
  }
}
HARNESS(h_scalar_round)
{
  switch (sym_split(14, "case")) {
  case 0: round_case<100, 10, int, int>(); break;
  case 1: round_case<10, 100, int, int>(); break;
  case 2: round_case<30, 20, int, int>(); break;
  case 3: round_case<6, 35, short, short>(); break;
  case 4: round_case<8192, 512, int64_t, int64_t>(); break;
  case 5: round_case<7, 7, unsigned, unsigned>(); break;
  case 6: round_case<100, 10, unsigned, unsigned>(); break;
  case 7: round_case<4, 6, uint16_t, uint16_t>(); break;
  case 8: round_case<1, 60, int, short>(); break;
  case 9: unit_case<10, int, int>(); break;
  case 10: unit_case<512, int64_t, int64_t>(); break;
  case 11: unit_case<7, unsigned, unsigned>(); break;
  case 12: unit_case<1024, uint64_t, uint64_t>(); break;
  case 13: unit_case<60, short, int>(); break;
  }
  REACH("done");
}
template <intmax_t N, intmax_t S, typename C, typename I> static void exact_case() // S is a multiple of N
{
  using Target = Scalar<N, C, Unit>;
  using Source = Scalar<S, I, Unit>;
  I c = any_count<I>("c");
  C d = any_count<C>("d");
  static const W HI = HIGH<C>, LO = LOW<C>;
  W k = S / N;
  // everything stays representable: values as well as counts
  ASSUME(all(W(c) * k <= HI / 4, W(c) * k >= LO / 4, W(d) <= HI / 4, W(d) >= LO / 4));
  ASSUME(all(W(d) * N <= HI, W(d) * N >= LO));
  Source src(c);
  Target t(d), u(src), w;
  CHECKM(t.count() == d && W(C(t.value())) == W(d) * N && t.scale() == N, "count and value");
  C plain = t;
  CHECKM(plain == t.value(), "converts to the value");
  CHECKM(W(u.count()) == W(c) * k, "construction keeps the value");
  w = src;
  CHECKM(W(w.count()) == W(c) * k, "assignment keeps the value");
  Target a;
  CHECK(a.count() == 0);
  CHECK(&a.assign(src) == &a);
  CHECKM(W(a.count()) == W(c) * k, "assign of a scalar");
  a.assign(d);
  CHECKM(a.count() == d, "assign of a count");
  Target copy(a);
  Target other;
  other = copy;
  CHECK(copy.count() == d && other.count() == d);
  if (std::is_signed_v<C> || W(d) >= W(c) * k) {
    Target m(t);
    CHECK(&(m -= src) == &m);
    CHECKM(W(m.count()) == W(d) - W(c) * k, "subtract a scalar of larger scale");
    auto diff = t - src;
    CHECKM(W(diff.count()) * decltype(diff)::SCALE == (W(d) - W(c) * k) * N, "difference");
    auto same = t - u;
    CHECK(W(same.count()) == W(d) - W(c) * k);
    if (N == S) {
      Target r1 = t - round_up(u), r2 = t - round_down(u), r3 = round_up(t) - u, r4 = round_down(t) - u;
      CHECK(all(r1.count() == same.count(), r2.count() == same.count(), r3.count() == same.count(), r4.count() == same.count()));
    }
  }
  Target p(t);
  CHECK(&(p += src) == &p);
  CHECKM(W(p.count()) == W(d) + W(c) * k, "add a scalar of larger scale");
  auto sum = t + src;
  auto sum2 = src + t;
  CHECKM(W(sum.count()) * decltype(sum)::SCALE == (W(d) + W(c) * k) * N, "sum");
  CHECKM(W(sum2.count()) * decltype(sum2)::SCALE == (W(d) + W(c) * k) * N, "sum");
  auto same = t + u;
  CHECK(same.count() == p.count());
  Target r1 = t + round_up(u), r2 = t + round_down(u), r3 = round_up(t) + u, r4 = round_down(t) + u;
  CHECK(all(r1.count() == p.count(), r2.count() == p.count(), r3.count() == p.count(), r4.count() == p.count()));
  // counts
  Target i(t);
  CHECKM((++i).count() == d + 1 && i.count() == d + 1, "pre increment");
  CHECKM(i++.count() == d + 1 && i.count() == d + 2, "post increment");
  CHECKM((--i).count() == d + 1 && i.count() == d + 1, "pre decrement");
  CHECKM(i--.count() == d + 1 && i.count() == d, "post decrement");
  CHECK(i.inc(3).count() == d + 3);
  CHECK(i.dec(2).count() == d + 1);
  CHECKM(t.plus(5).count() == d + 5, "plus");
  if (std::is_signed_v<C> || d >= 5)
    CHECKM(t.minus(5).count() == d - 5, "minus");
  CHECKM(t(9).count() == 9, "call");
  CHECKM(t.count() == d && src.count() == c, "the arguments are not changed");
}
HARNESS(h_scalar_exact)
{
  switch (sym_split(5, "case")) {
  case 0: exact_case<10, 100, int, int>(); break;
  case 1: exact_case<512, 8192, int64_t, int64_t>(); break;
  case 2: exact_case<3, 3, unsigned, unsigned>(); break;
  case 3: exact_case<1, 60, int, int>(); break;
  case 4: exact_case<7, 21, int64_t, int>(); break;
  }
  REACH("done");
}
template <intmax_t N, intmax_t S, typename C, typename I> static void compare_case()
{
  Scalar<N, C, Unit> a(any_count<C>("a"));
  Scalar<S, I, Unit> b(any_count<I>("b"));
  bool lt = a < b, le = a <= b, eq = a == b, ge = a >= b, gt = a > b;
  bool rlt = b < a, rle = b <= a, req = b == a, rge = b >= a, rgt = b > a;
  W x = W(a.count()) * N, y = W(b.count()) * S;
  CHECKM(lt == (x < y), "less");
  CHECKM(le == (x <= y), "less or equal");
  CHECKM(eq == (x == y), "equal");
  CHECKM(ge == (x >= y), "greater or equal");
  CHECKM(gt == (x > y), "greater");
  CHECKM(all(rlt == gt, rle == ge, req == eq, rge == le, rgt == lt), "the other way around");
}
HARNESS(h_scalar_compare)
{
  switch (sym_split(8, "case")) {
  case 0: compare_case<10, 100, int, int>(); break;
  case 1: compare_case<30, 20, int, int>(); break;
  case 2: compare_case<7, 7, short, int>(); break;
  case 3: compare_case<512, 8192, int64_t, int64_t>(); break;
  case 4: compare_case<6, 35, unsigned, int>(); break;
  case 5: compare_case<1, 1024, int64_t, int>(); break;
  case 6: compare_case<4, 6, uint16_t, unsigned>(); break;
  case 7: {
    int c = any_count<int>("c"), n = any_count<int>("n");
    ASSUME(all(W(c) * 60 <= INT32_MAX, W(c) * 60 >= INT32_MIN));
    Scalar<60> s(c);
    CHECKM((s < n) == (W(c) * 60 < n) && (n < s) == (W(c) * 60 > n) && (s == n) == (W(c) * 60 == n) && (s >= n) == (W(c) * 60 >= n), "a scalar compares by value with an integer");
    break;
  }
  }
  REACH("done");
}
template <intmax_t N, intmax_t S, typename C, typename I> static void ratio_case()
{
  C c = any_count<C>("c");
  static const I divisor[] = {1, -3, 10, 16};
  I d = divisor[sym_split(4, "d")];
  Scalar<N, C, Unit> a(c);
  Scalar<S, I, Unit> b(d);
  switch (sym_pick(3, "how")) {
  case 0: {
    ASSUME(all(W(c) * (N / std::gcd(N, S)) <= HIGH<C>, W(c) * (N / std::gcd(N, S)) >= LOW<C>)); // the quotient is representable
    W q = a / b;
    W x = W(c) * N, y = W(d) * S;
    W r = x - q * y;
    // truncated quotient
    W ar = r < 0 ? -r : r, ay = y < 0 ? -y : y;
    CHECKM(all(ar < ay, any(r == 0, (r < 0) == (x < 0))), "ratio of the values, truncated");
    break;
  }
  case 1: {
    auto q = a / d;
    auto a2 = a;
    a2 /= C(d);
    W r = W(c) - W(q.count()) * W(d);
    W ar = r < 0 ? -r : r, ay = d < 0 ? -W(d) : W(d);
    CHECKM(all(ar < ay, any(r == 0, (r < 0) == (c < 0)), a2.count() == q.count()), "division of the count");
    break;
  }
  case 2: {
    ASSUME(all(W(c) * d <= HIGH<C>, W(c) * d >= LOW<C>));
    auto m = a * int(d);
    auto m2 = int(d) * a;
    auto a2 = a;
    a2 *= C(d);
    CHECKM(all(W(m.count()) == W(c) * d, m2.count() == m.count(), a2.count() == m.count()), "multiplication of the count");
    break;
  }
  }
}
HARNESS(h_scalar_ratio)
{
  switch (sym_split(3, "case")) {
  case 0: ratio_case<10, 100, int, int>(); break;
  case 1: ratio_case<30, 20, int, int>(); break;
  case 2: ratio_case<8, 4, int64_t, int>(); break;
  }
  REACH("done");
}
