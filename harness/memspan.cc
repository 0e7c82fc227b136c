// MemSpan: sub-range algebra and element-aware memory operations.
//@ entry h_span_algebra props=M05 shards=4 : spans of uint8_t, uint16_t, uint64_t and a 24 byte struct, void and const void, with any base address below 2^62, any count up to 2^40, any 64 bit offset and count argument
//@ entry h_span_elems props=M05 shards=2 : spans of 0..4 (thorough 6) elements: indexing, apply, make, destroy, rebind, as_ptr, array / container construction
//@ entry h_span_compare props=M06 shards=4 : pairs of spans of 0..3 (thorough 4) elements of 1, 2, 4, 8 bytes with arbitrary content
//@ entry h_span_copy props=M06 shards=4 : memcpy / memset overloads between spans of 0..3 (thorough 4) elements with guard bytes around the target
//@ entry h_span_align props=M06 shards=1 : any base address below 2^62, any size up to 2^40, alignment 1..4096, object sizes 1..40 that are multiples of the alignment, and alignof / sizeof of types
#include "vf.h"
#include <array>
#include <string>
#include <vector>
#include "swoc/MemSpan.h"
using swoc::MemSpan;

struct Big {
  uint64_t a[3];
};
template <class T> static size_t bytes_of() { return sizeof(T); }
template <> size_t bytes_of<void>() { return 1; }
template <> size_t bytes_of<void const>() { return 1; }
static uint64_t addr(void const *p) { return (uint64_t)p; }
static uint64_t mn(uint64_t a, uint64_t b) { return a < b ? a : b; }

// span s covers n elements (of z bytes) at address a; the address of an empty span is irrelevant if loose
template <class M> static bool is(M const &s, uint64_t a, uint64_t n) { return all(addr(s.data()) == a, s.count() == n); }
template <class M> static bool isE(M const &s, uint64_t a, uint64_t n) { return all(s.count() == n, any(n == 0, addr(s.data()) == a)); }

template <class T> static void algebra(unsigned op)
{
  const size_t z = bytes_of<T>();
  uint64_t a = sym_u64("addr"), n = sym_u64("count"), k = sym_u64("k"), c = sym_u64("c");
  ASSUME(a < (uint64_t(1) << 62));
  ASSUME(n <= (uint64_t(1) << 40));
  MemSpan<T> s{reinterpret_cast<T *>(a), size_t(n)};
  uint64_t m = mn(k, n);
  switch (op) {
  case 0: {
    CHECK(is(s, a, n));
    CHECK(s.size() == n);
    CHECK(s.length() == n);
    CHECK(s.data_size() == n * z);
    CHECK(s.empty() == (n == 0));
    CHECK(!s == (n == 0));
    CHECK(bool(s) == (n != 0));
    CHECK(addr(s.data_end()) == a + n * z);
    MemSpan<T> t{reinterpret_cast<T *>(a), reinterpret_cast<T *>(a + n * z)};
    CHECK(is(t, a, n));
    CHECK(t.is_same(s));
    t.assign(reinterpret_cast<T *>(k), c);
    CHECK(is(t, k, c));
    CHECK(t.is_same(s) == all(k == a, c == n));
    t.assign(reinterpret_cast<T *>(a), reinterpret_cast<T *>(a + n * z));
    CHECK(is(t, a, n));
    t.clear();
    CHECK(is(t, 0, 0));
    uint64_t off = k & 0xffffffull, in = off;
    if (z != 24)
      CHECK(s.contains(reinterpret_cast<T *>(a + off * z)) == (in < n));
    if (off >= 1 && off * z < a)
      CHECK(!s.contains(reinterpret_cast<T *>(a - off * z)));
    break;
  }
  case 1: CHECK(is(s.prefix(k), a, m)); CHECK(is(s, a, n)); break;
  case 2: CHECK(is(s.suffix(k), a + (n - m) * z, m)); CHECK(is(s, a, n)); break;
  case 3: { auto &r = s.remove_prefix(k); CHECK(&r == &s); CHECK(isE(s, a + m * z, n - m)); break; }
  case 4: { auto &r = s.remove_suffix(k); CHECK(&r == &s); CHECK(is(s, a, n - m)); break; }
  case 5: { MemSpan<T> r = s.clip_prefix(k); CHECK(is(r, a, m)); CHECK(isE(s, a + m * z, n - m)); break; }
  case 6: { MemSpan<T> r = s.clip_suffix(k); CHECK(isE(r, a + (n - m) * z, m)); CHECK(isE(s, a, n - m)); break; }
  case 7: {
    bool in = k < n;
    CHECK(isE(s.subspan(k, c), a + k * z, in ? mn(c, n - k) : 0));
    CHECK(is(s, a, n));
    break;
  }
  case 8:
    if constexpr (!std::is_void_v<T>) {
      CHECK(is(s.first(k), a, m));
      CHECK(is(s.last(k), a + (n - m) * z, m));
      s.restrict(k);
      CHECK(is(s, a, m));
    }
    break;
  case 9: { // conversions to void and back
    MemSpan<void const> v{s};
    CHECK(is(v, a, n * z));
    MemSpan<void const> w;
    w = s;
    CHECK(is(w, a, n * z));
    if constexpr (!std::is_const_v<T>) {
      MemSpan<void> u{s};
      CHECK(is(u, a, n * z));
      MemSpan<void> x;
      x = s;
      CHECK(is(x, a, n * z));
    }
    if constexpr (!std::is_void_v<T>) {
      CHECK(is(s.template rebind<void>(), a, n * z));
      CHECK(is(s.template rebind<void const>(), a, n * z));
      CHECK(is(s.template rebind<uint8_t>(), a, n * z));
      MemSpan<T const> cs{s};
      CHECK(is(cs, a, n));
    } else {
      bool fits = n % 8 == 0;
      bool threw = false;
      try {
        auto r = v.template rebind<uint64_t const>();
        CHECK(is(r, a, n / 8));
      } catch (std::invalid_argument &) {
        threw = true;
      }
      CHECK(threw != fits);
    }
    break;
  }
  }
}
HARNESS(h_span_algebra)
{
  unsigned op = sym_split(10, "op");
  switch (sym_pick(6, "type")) {
  case 0: algebra<uint8_t>(op); break;
  case 1: algebra<uint16_t>(op); break;
  case 2: algebra<uint64_t>(op); break;
  case 3: algebra<Big>(op); break;
  case 4: algebra<void>(op); break;
  case 5: algebra<void const>(op); break;
  }
}

static unsigned g_live, g_seq, g_made;
struct Track {
  uint32_t v;
  uint32_t order;
  Track(uint32_t x = 7) : v(x), order(g_seq++) { ++g_live, ++g_made; }
  ~Track() { --g_live; v = 0xdead; }
};
HARNESS(h_span_elems)
{
  unsigned op = sym_split(4, "op");
  size_t n    = sym_pick(BOUND(5, 7), "n");
  switch (op) {
  case 0: { // indexing / iteration / front / back / apply
    Block b(n * 4, "data");
    uint32_t *p = reinterpret_cast<uint32_t *>(b.p);
    MemSpan<uint32_t> s{p, n};
    size_t i = 0;
    for (auto &e : s) {
      CHECK(&e == p + i);
      CHECK(&s[i] == p + i);
      ++i;
    }
    CHECK(i == n);
    CHECK(s.begin() == p);
    CHECK(s.end() == p + n);
    if (n) {
      CHECK(&s.front() == p);
      CHECK(&s.back() == p + n - 1);
      uint32_t sum = 0, want = 0;
      for (size_t j = 0; j < n; j++)
        want = want * 31 + p[j];
      size_t calls = 0;
      s.apply([&](uint32_t &x) { sum = sum * 31 + x; ++calls; });
      CHECK(calls == n);
      CHECK(sum == want);
    }
    break;
  }
  case 1: { // make, destroy
    g_live = g_seq = g_made = 0;
    Block b(n * sizeof(Track));
    MemSpan<Track> s{reinterpret_cast<Track *>(b.p), n};
    uint32_t v = sym_u32("v");
    if (v & 1)
      s.make(v);
    else {
      s.make();
      v = 7;
    }
    CHECK(g_live == n);
    CHECK(g_made == n);
    for (size_t i = 0; i < n; i++) {
      CHECK(s[i].v == v);
      CHECK(s[i].order == i);
    }
    s.destroy();
    CHECK(g_live == 0);
    break;
  }
  case 2: { // as_ptr and rebind sizes
    Block b(n * 4, "data");
    MemSpan<void> s{b.p, n * 4};
    bool t8 = false, t12 = false, c8 = false;
    try {
      CHECK((char *)s.as_ptr<uint64_t>() == b.p);
    } catch (std::invalid_argument &) {
      t8 = true;
    }
    CHECK(t8 == (n * 4 != 8));
    try {
      CHECK((char *)MemSpan<void const>(s).as_ptr<uint64_t>() == b.p);
    } catch (std::invalid_argument &) {
      c8 = true;
    }
    CHECK(c8 == (n * 4 != 8));
    MemSpan<uint32_t> w{reinterpret_cast<uint32_t *>(b.p), n};
    try {
      auto r = w.rebind<uint64_t>();
      CHECK(r.count() == n / 2);
      CHECK((char *)r.data() == b.p);
    } catch (std::invalid_argument &) {
      t12 = true;
    }
    CHECK(t12 == (n % 2 != 0));
    CHECK(w.rebind<uint16_t>().count() == n * 2);
    break;
  }
  case 3: { // construction from arrays and containers
    uint16_t a[5];
    sym_bytes(a, sizeof a, "a");
    CHECK(is(MemSpan<uint16_t>(a), addr(a), 5));
    CHECK(is(MemSpan<void>(a), addr(a), 10));
    std::array<uint32_t, 3> arr{};
    CHECK(is(MemSpan<uint32_t>(arr), addr(arr.data()), 3));
    CHECK(is(MemSpan<uint32_t const>(arr), addr(arr.data()), 3));
    CHECK(is(MemSpan<void const>(arr), addr(arr.data()), 12));
    std::vector<uint32_t> v(n, 5);
    CHECK(is(MemSpan<uint32_t>(v), addr(v.data()), n));
    CHECK(is(MemSpan<void>(v), addr(v.data()), n * 4));
    std::string_view sv{"text!", n};
    CHECK(is(MemSpan<char const>(sv), addr(sv.data()), n));
    CHECK(is(MemSpan<void const>(sv), addr(sv.data()), n));
    CHECK(is(MemSpan<char const>(nullptr), 0, 0));
    CHECK(MemSpan<char const>("lit").count() == 3);
    CHECK(MemSpan<void const>("lit").size() == 3);
    // constant characters: only a terminating nul is dropped
    char c[4];
    sym_bytes(c, sizeof c, "c");
    char const(&cc)[4] = c;
    size_t len         = c[3] == 0 ? 3 : 4;
    CHECK(is(MemSpan<char const>(cc), addr(c), len));
    CHECK(is(MemSpan<void const>(cc), addr(c), len));
    CHECK(is(MemSpan<char>(c), addr(c), 4));
    CHECK(is(MemSpan<void>(c), addr(c), 4));
    uint8_t const(&u8)[5] = *reinterpret_cast<uint8_t const(*)[5]>(a);
    CHECK(is(MemSpan<uint8_t const>(u8), addr(a), 5));
    CHECK(is(MemSpan<void const>(u8), addr(a), 5));
    break;
  }
  }
}

template <class T> static void compare(size_t n, size_t m)
{
  Block a(n * sizeof(T), "a"), b(m * sizeof(T), "b");
  MemSpan<T> s{reinterpret_cast<T *>(a.p), n}, t{reinterpret_cast<T *>(b.p), m};
  size_t nb = n * sizeof(T), mb = m * sizeof(T);
  bool eq = n == m;
  int o = 0;
  for (size_t i = nb < mb ? nb : mb; i-- > 0;) {
    unsigned x = (unsigned char)a[i], y = (unsigned char)b[i];
    o = x < y ? -1 : x > y ? 1 : o;
  }
  eq = all(eq, o == 0);
  CHECK((s == t) == eq);
  CHECK((s != t) == !eq);
  CHECK(s == s);
  int r = sgn(memcmp(s, t));
  CHECK((r == 0) == eq);
  CHECK(implies(o != 0, r == o));
  CHECK(r == -sgn(memcmp(t, s)));
  MemSpan<void const> vs{s}, vt{t};
  CHECK((vs == vt) == eq);
  CHECK((vs != vt) == !eq);
}
HARNESS(h_span_compare)
{
  const unsigned N = BOUND(4, 5);
  size_t n = sym_split(N, "n"), m = sym_pick(N, "m");
  switch (sym_pick(4, "type")) {
  case 0: compare<uint8_t>(n, m); break;
  case 1: compare<uint16_t>(n, m); break;
  case 2: compare<uint32_t>(n, m); break;
  case 3: compare<uint64_t>(n, m); break;
  }
}

template <class T> static void copy(unsigned op, size_t n, size_t m)
{
  const size_t z = sizeof(T);
  Block src(m * z, "src"), dst((n + 2) * z, "dst"), old((n + 2) * z);
  memcpy(old.p, dst.p, (n + 2) * z);
  T *d = reinterpret_cast<T *>(dst.p) + 1, *s = reinterpret_cast<T *>(src.p);
  MemSpan<T> ds{d, n}, ss{s, m};
  size_t k = n < m ? n : m; // elements copied
  switch (op) {
  case 0: CHECK(memcpy(ds, ss) == d); break;
  case 1:
    if (m < n)
      return;
    CHECK(memcpy(ds, s) == d);
    k = n;
    break;
  case 2:
    if (m > n)
      return;
    CHECK(memcpy(d, ss) == d);
    k = m;
    break;
  case 3: {
    T v;
    sym_bytes(&v, z, "v");
    memset(ds, v);
    for (size_t i = 0; i < n; i++)
      CHECK(memcmp(d + i, &v, z) == 0);
    CHECK(memcmp(dst.p, old.p, z) == 0);
    CHECK(memcmp(dst.p + (n + 1) * z, old.p + (n + 1) * z, z) == 0);
    return;
  }
  case 4:
    if constexpr (std::is_same_v<T, char>)
      CHECK(memcpy(ds, std::string_view{s, m}) == d);
    else {
      MemSpan<void> vd{ds};
      k = n * z < m * z ? n : m;
      CHECK(memcpy(vd, std::string_view{src.p, m * z}) == d);
    }
    break;
  case 5: {
    char c = sym_u8("c");
    MemSpan<void> vd{ds};
    memset(vd, c);
    for (size_t i = 0; i < n * z; i++)
      CHECK(dst[z + i] == c);
    CHECK(memcmp(dst.p, old.p, z) == 0);
    CHECK(memcmp(dst.p + (n + 1) * z, old.p + (n + 1) * z, z) == 0);
    return;
  }
  }
  for (size_t i = 0; i < (n + 2) * z; i++) {
    bool in = i >= z && i < (k + 1) * z;
    CHECK(dst[i] == (in ? src[i - z] : old[i]));
  }
}
HARNESS(h_span_copy)
{
  const unsigned N = BOUND(4, 5);
  unsigned op = sym_split(6, "op");
  size_t n = sym_pick(N, "n"), m = sym_pick(N, "m");
  switch (sym_pick(4, "type")) {
  case 0: copy<char>(op, n, m); break;
  case 1: copy<uint16_t>(op, n, m); break;
  case 2: copy<uint32_t>(op, n, m); break;
  case 3: copy<uint64_t>(op, n, m); break;
  }
}

template <class M> static void align_is(M const &r, uint64_t a, uint64_t n, uint64_t al, uint64_t obj)
{
  uint64_t p = addr(r.data());
  CHECKM(p % al == 0, "aligned");
  CHECKM(all(p >= a, p - a < al), "minimal padding");
  if (n > p - a) {
    uint64_t left = n - (p - a);
    CHECKM(r.size() == left / obj * obj, "all of the usable rest");
  } else
    CHECKM(r.empty(), "empty if there is no room");
}
HARNESS(h_span_align)
{
  uint64_t a = sym_u64("addr"), n = sym_u64("size");
  ASSUME(a < (uint64_t(1) << 62));
  ASSUME(n <= (uint64_t(1) << 40));
  MemSpan<void> s{reinterpret_cast<void *>(a), size_t(n)};
  MemSpan<void const> c{s};
  unsigned op = sym_pick(8, "op");
  if (op < 4) {
    uint64_t al = uint64_t(1) << sym_pick(13, "align");
    if (op == 0)
      align_is(s.align(al), a, n, al, 1);
    else if (op == 1)
      align_is(c.align(al), a, n, al, 1);
    else {
      uint64_t k = 1 + sym_pick(3, "k");
      if (al * k > 40)
        return;
      if (op == 2)
        align_is(s.align(al, al * k), a, n, al, al * k);
      else
        align_is(c.align(al, al * k), a, n, al, al * k);
    }
  } else if (op == 4)
    align_is(s.align<uint64_t>(), a, n, alignof(uint64_t), 8);
  else if (op == 5)
    align_is(c.align<Big>(), a, n, alignof(Big), sizeof(Big));
  else if (op == 6)
    align_is(s.align<uint16_t>(), a, n, 2, 2);
  else
    align_is(s.align<char>(), a, n, 1, 1);
}
