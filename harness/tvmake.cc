// TextView: construction, assignment, C string overloads and output to streams.
//@ entry h_tv_array props=T07 shards=4 : constant character arrays of 1, 2, 5 arbitrary bytes (any with embedded or without terminating nul): construction, assignment, assign
//@ entry h_tv_cstr props=T07 shards=4 : C strings of 0..5 (thorough 7) arbitrary non nul bytes by pointer, with explicit, negative and npos sizes of every integer type, null pointers
//@ entry h_tv_other props=T07 shards=4 : std::string, string_view, containers, pointer pairs of 0..4 arbitrary bytes, clear, advance by any count
//@ entry h_tv_overload props=T07,T02 shards=4 : the C string and integer argument overloads agree with the view ones, for views of 0..4 arbitrary bytes, C strings of 0..2 arbitrary bytes, every int
//@ entry h_tv_stream props=T07 shards=4 : output of two views of 0..4 arbitrary bytes with widths 0..20 each, any fill, alignment unset, left, right, internal, to a stream that fails after 1, 2, 3 writes or never
#include "vf.h"
#include "swoc/TextView.h"
#include <array>
#include <string>
using swoc::TextView;
static bool is(TextView const &v, const char *base, size_t n) { return all(v.size() == n, v.data() == base); }

template <size_t N> static void array()
{
  struct Box {
    char c[N];
    char guard = 'x';
  };
  static Box box;
  sym_bytes(box.c, N, "c");
  char const(&a)[N] = box.c;
  size_t want       = N - (a[N - 1] == 0);
  TextView v{a};
  CHECK(is(v, a, want));
  TextView w{"previous"};
  CHECK(&(w = a) == &w);
  CHECK(is(w, a, want));
  TextView x{"previous"};
  CHECK(&x.assign(a) == &x);
  CHECK(is(x, a, want));
}
HARNESS(h_tv_array)
{
  switch (sym_pick(3, "n")) {
  case 0: array<1>(); break;
  case 1: array<2>(); break;
  case 2: array<5>(); break;
  }
  REACH("done");
}

HARNESS(h_tv_cstr)
{
  size_t n = sym_pick(BOUND(6, 8), "n");
  Block b(n + 1, "text");
  for (size_t i = 0; i < n; ++i)
    ASSUME(b[i] != 0);
  b[n]           = 0;
  char *p        = b.p;
  char const *cp = b.p;
  switch (sym_split(4, "how")) {
  case 0: {
    TextView v{p}, w{cp};
    CHECK(is(v, p, n));
    CHECK(is(w, p, n));
    TextView x{"previous"}, y{"previous"};
    CHECK(&(x = p) == &x);
    CHECK(&(y = cp) == &y);
    CHECK(is(x, p, n));
    CHECK(is(y, p, n));
    TextView z{"previous"}, u{"previous"};
    CHECK(&z.assign(p) == &z);
    CHECK(&u.assign(cp) == &u);
    CHECK(is(z, p, n));
    CHECK(is(u, p, n));
    break;
  }
  case 1: { // explicit sizes
    size_t k = sym_pick(BOUND(6, 8), "size");
    ASSUME(k <= n);
    CHECK(is(TextView(cp, k), p, k));
    CHECK(is(TextView(cp, unsigned(k)), p, k));
    CHECK(is(TextView(cp, int(k)), p, k));
    CHECK(is(TextView(cp, ssize_t(k)), p, k));
    TextView v{"previous"};
    CHECK(&v.assign(cp, k) == &v);
    CHECK(is(v, p, k));
    break;
  }
  case 2: { // computed sizes
    int neg = int(sym_u32("negative"));
    ASSUME(neg < 0);
    ssize_t sneg = ssize_t(sym_u64("long"));
    ASSUME(sneg < 0);
    CHECK(is(TextView(cp, neg), p, n));
    CHECK(is(TextView(cp, sneg), p, n));
    CHECK(is(TextView(cp, TextView::npos), p, n));
    TextView v{"previous"};
    v.assign(cp, TextView::npos);
    CHECK(is(v, p, n));
    break;
  }
  case 3: { // nothing
    char *null        = nullptr;
    char const *cnull = nullptr;
    CHECK(is(TextView(null), nullptr, 0));
    CHECK(is(TextView(cnull), nullptr, 0));
    CHECK(is(TextView(nullptr), nullptr, 0));
    CHECK(is(TextView(cnull, -1), nullptr, 0));
    CHECK(is(TextView(cnull, ssize_t(-1)), nullptr, 0));
    CHECK(is(TextView(cnull, TextView::npos), nullptr, 0));
    CHECK(is(TextView(), nullptr, 0));
    TextView v{"previous"};
    v.assign(cnull, TextView::npos);
    CHECK(is(v, nullptr, 0));
    break;
  }
  }
  REACH("done");
}

HARNESS(h_tv_other)
{
  size_t n = sym_pick(5, "n");
  Block b(n, "text");
  char const *p = b.p;
  TextView v{"previous"};
  switch (sym_split(3, "how")) {
  case 0: {
    std::string s(b.p, n);
    TextView a{s};
    CHECK(is(a, s.data(), n));
    CHECK(&(v = s) == &v);
    CHECK(is(v, s.data(), n));
    TextView w{"previous"};
    CHECK(&w.assign(s) == &w);
    CHECK(is(w, s.data(), n));
    break;
  }
  case 1: {
    std::string_view s{p, n};
    CHECK(is(TextView(s), p, n));
    CHECK(&(v = s) == &v);
    CHECK(is(v, p, n));
    TextView w{"previous"};
    CHECK(&w.assign(s) == &w);
    CHECK(is(w, p, n));
    std::array<char, 3> arr{{'a', 'b', 0}};
    CHECK(is(TextView(arr), arr.data(), 3));
    CHECK(&w.assign(arr) == &w);
    CHECK(is(w, arr.data(), 3));
    CHECK(is(TextView(p, p + n), p, n));
    CHECK(&w.assign(p, p + n) == &w);
    CHECK(is(w, p, n));
    CHECK(w.data_end() == p + n);
    CHECK(&w.clear() == &w);
    CHECK(is(w, nullptr, 0));
    CHECK(!w);
    break;
  }
  case 2: {
    v        = TextView(p, n);
    size_t k = sym_u64("k");
    size_t c = k < n ? k : n;
    CHECK(&(v += k) == &v);
    CHECK(is(v, p + c, n - c));
    CHECK(v.empty() == (c == n));
    TextView w{p, n};
    auto old = w++;
    CHECK(is(old, p, n));
    CHECK(is(w, p + (n > 0), n - (n > 0)));
    auto &r = ++w;
    CHECK(&r == &w);
    CHECK(is(w, p + (n > 1 ? 2 : n), n - (n > 1 ? 2 : n)));
    break;
  }
  }
  REACH("done");
}

HARNESS(h_tv_overload)
{
  size_t n = sym_pick(5, "n"), k = sym_pick(3, "k");
  Block b(n, "text"), a(k + 1, "arg");
  for (size_t i = 0; i < k; ++i)
    ASSUME(a[i] != 0);
  a[k]            = 0;
  char const *arg = a.p;
  TextView v{b.p, n}, x{a.p, k};
  switch (sym_split(4, "what")) {
  case 0:
    CHECK(v.starts_with(arg) == v.starts_with(std::string_view(x)));
    CHECK(v.ends_with(arg) == v.ends_with(std::string_view(x)));
    break;
  case 1:
    CHECK(v.starts_with_nocase(arg) == v.starts_with_nocase(std::string_view(x)));
    CHECK(v.ends_with_nocase(arg) == v.ends_with_nocase(std::string_view(x)));
    break;
  case 2: {
    TextView l{v}, m{v}, t{v}, u{v};
    CHECK(&l.ltrim(arg) == &l);
    m.ltrim(std::string_view(x));
    CHECK(is(l, m.data(), m.size()));
    CHECK(&t.trim(arg) == &t);
    u.trim(std::string_view(x));
    CHECK(is(t, u.data(), u.size()));
    break;
  }
  case 3: { // a negative count is larger than any size
    int c     = int(sym_u32("count"));
    size_t uc = size_t(ssize_t(c)), mn = uc < n ? uc : n;
    CHECK(is(v.prefix(c), b.p, mn));
    CHECK(is(v.suffix(c), b.p + n - mn, mn));
    TextView s{v}, t{v}, r;
    r = s.split_prefix(c);
    t.split_prefix(uc);
    CHECK(r.size() == (uc < n ? uc : 0));
    CHECK(is(s, t.data(), t.size()));
    TextView f{v}, g{v};
    auto rf = f.split_suffix(c), rg = g.split_suffix(uc);
    CHECK(is(rf, rg.data(), rg.size()));
    CHECK(is(f, g.data(), g.size()));
    TextView y{v}, z{v};
    auto ry = y.take_suffix(c), rz = z.take_suffix(uc);
    CHECK(is(ry, rz.data(), rz.size()));
    CHECK(is(y, z.data(), z.size()));
    break;
  }
  }
  REACH("done");
}

namespace
{
struct Out { // as much of a stream as is needed
  using char_type = char;
  enum flags_type { adjustfield = 7, left = 1, right = 2, internal = 4 };
  char buf[64];
  size_t n       = 0;
  size_t w       = 0;
  unsigned f     = 0;
  unsigned alive = 99; // writes until the stream fails
  char c;
  char fill() const { return c; }
  bool good() const { return alive > 0; }
  size_t width() const { return w; }
  unsigned flags() const { return f; }
  Out &write(char const *p, size_t k)
  {
    if (!good())
      return *this;
    for (size_t i = 0; i < k; ++i)
      buf[n++] = p[i];
    --alive;
    return *this;
  }
};
} // namespace
HARNESS(h_tv_stream)
{
  static const unsigned flags[] = {0, Out::left, Out::right, Out::internal, Out::left | 64, 64}, widths[] = {0, 1, 3, 8, 9, 20};
  Out out;
  out.alive = sym_pick(2, "fails") ? 1 + sym_pick(3, "alive") : 99;
  bool fail = out.alive < 99;
  static char want[64];
  size_t wn = 0;
  for (unsigned i = 0; i < 2; ++i) {
    size_t n = sym_pick(5, "n");
    Block b(n, "text");
    TextView v{b.p, n};
    if (!out.good())
      break;
    out.c     = char(sym_u8("fill"));
    out.w     = widths[sym_pick(6, "width")];
    out.f     = flags[sym_split(6, "flags")];
    bool left = (out.f & 7) == Out::left;
    size_t pad = out.w > n ? out.w - n : 0;
    CHECK(&v.stream_write(out, v) == &out);
    for (size_t k = 0; k < pad && !left; ++k)
      want[wn++] = out.c;
    for (size_t k = 0; k < n; ++k)
      want[wn++] = b[k];
    for (size_t k = 0; k < pad && left; ++k)
      want[wn++] = out.c;
  }
  if (fail)
    CHECKM(out.n <= wn, "not more than everything");
  else
    CHECKM(out.n == wn, "everything is written");
  bool same = true;
  for (size_t k = 0; k < out.n; ++k)
    same = all(same, out.buf[k] == want[k]);
  CHECKM(same, "in order");
  REACH("done");
}
