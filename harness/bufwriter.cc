// Buffer writers: bounded buffer and arena backed buffer.
//@ entry h_bw_ops props=B01 shards=8 : buffers of 0, 1, 3, 4 (thorough 0..5) bytes and every sequence of 3 (thorough 4) operations out of write char / bytes / view, commit, discard, restrict, restore, copy, clear, move construction and assignment, writing through aux_data, with counts 0..7 and arbitrary content
//@ entry h_bw_numbers props=B01 shards=8 : any buffer capacity and every sequence of 3 (thorough 4) operations out of commit, discard, restrict, restore, write of 0..3 bytes, clear with any counts below 2^48 (writes go to a buffer that ends at the capacity)
//@ entry h_bw_copy props=B01 shards=4 : buffers of 0..5 (thorough 7) bytes, extents 0..8, any 64 bit source, destination and count
//@ entry h_bw_kinds props=B01 shards=1 : null buffer, invalid construction, local buffers of 1..3 bytes, buffers from spans, default operations of the writer base, detach, assign, views
//@ entry h_arena_writer props=M03 shards=8 : every sequence of 3 (thorough 4) operations out of write (0, 1, 3, 81, 130 bytes), write char, fill and commit of the unused part, failed commit, discard, with 0..3, 20 or 80 bytes left in the arena before the start, then allocation of the text
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/ArenaWriter.h"
#include "swoc/bwf_base.h"
using swoc::BufferWriter;
using swoc::FixedBufferWriter;
using swoc::LocalBufferWriter;
using swoc::MemSpan;
using swoc::TextView;
static uint64_t addr(void const *p) { return (uint64_t)p; }
static uint64_t mn(uint64_t a, uint64_t b) { return a < b ? a : b; }

struct Model {
  uint8_t m[8];
  size_t n, cap, ext; // buffer, capacity, extent
  void put(uint8_t c)
  {
    if (ext < cap)
      m[ext] = c;
    ++ext;
  }
};
static void audit(FixedBufferWriter &w, Model const &m, Block const &b)
{
  CHECK(w.extent() == m.ext);
  CHECK(w.capacity() == m.cap);
  CHECK(w.size() == mn(m.ext, m.cap));
  CHECK(w.error() == (m.ext > m.cap));
  CHECK(w.remaining() == m.cap - mn(m.ext, m.cap));
  CHECK(w.data() == b.p);
  CHECK(w.view().data() == b.p);
  CHECK(w.view().size() == mn(m.ext, m.cap));
  if (m.ext < m.cap) {
    CHECK(w.aux_data() == b.p + m.ext);
    CHECK(w.aux_span().data() == b.p + m.ext);
  }
  CHECK(w.aux_span().size() == w.remaining());
  if (m.ext > m.cap)
    CHECK(w.aux_data() == nullptr);
  bool ok = true;
  for (size_t i = 0; i < m.n; ++i)
    ok = all(ok, uint8_t(b.p[i]) == m.m[i]);
  CHECKM(ok, "buffer content");
}
static void model_copy(Model &m, uint64_t dst, uint64_t src, uint64_t n)
{
  uint8_t t[8];
  size_t lim = mn(m.ext, m.cap);
  for (size_t i = 0; i < 8; ++i)
    t[i] = m.m[i];
  for (size_t i = 0; i < lim; ++i)
    for (size_t j = 0; j < lim; ++j)
      if (all(i >= dst, i - dst < n, j >= src, j - src == i - dst))
        m.m[i] = t[j];
}
static void ops(FixedBufferWriter &w, Model m, Block &b, unsigned const *op, size_t k)
{
  audit(w, m, b);
  if (!k)
    return;
  switch (*op) {
  case 0: {
    char c = sym_u8("c");
    CHECK(&w.write(c) == &w);
    m.put(c);
    break;
  }
  case 1: {
    size_t n = BOUND(1, 0) ? sym_pick(4, "n") : sym_pick(7, "n");
    Block s(n, "src");
    CHECK(&w.write(s.p, n) == &w);
    for (size_t i = 0; i < n; ++i)
      m.put(s[i]);
    break;
  }
  case 2: {
    size_t n = sym_pick(4, "n");
    Block s(n, "src");
    BufferWriter &bw = w;
    bw.write(TextView{s.p, n});
    for (size_t i = 0; i < n; ++i)
      m.put(s[i]);
    break;
  }
  case 3: {
    static const size_t CNT[] = {0, 1, 3, 7};
    size_t n = CNT[sym_pick(4, "n")];
    CHECK(w.commit(n));
    m.ext += n;
    break;
  }
  case 4: {
    static const size_t CNT[] = {0, 1, 2, 4};
    size_t n = CNT[sym_pick(4, "n")];
    w.discard(n);
    m.ext -= mn(n, m.ext);
    break;
  }
  case 5: {
    size_t n   = sym_pick(3, "n");
    bool threw = false;
    try {
      w.restrict(n);
    } catch (std::invalid_argument &) {
      threw = true;
    }
    CHECK(threw == (n > m.cap));
    if (n <= m.cap)
      m.cap -= n;
    break;
  }
  case 6: { // only capacity that was removed can be restored
    size_t n = sym_pick(3, "n");
    if (n > m.n - m.cap)
      sym_stop();
    w.restore(n);
    m.ext = mn(m.ext, m.cap);
    m.cap += n;
    break;
  }
  case 7: {
    size_t d = sym_pick(3, "dst"), s = sym_pick(3, "src"), n = 1 + sym_pick(2, "n");
    w.copy(d, s, n);
    model_copy(m, d, s, n);
    break;
  }
  case 8:
    w.clear();
    m.ext = 0;
    break;
  case 9: {
    FixedBufferWriter v{std::move(w)};
    CHECK(w.capacity() == 0);
    CHECK(w.extent() == 0);
    CHECK(w.size() == 0);
    CHECK(w.data() == nullptr);
    w.write('x');
    return ops(v, m, b, op + 1, k - 1);
  }
  case 10: {
    Block o(2);
    FixedBufferWriter v{o.p, o.n};
    v.write("ab");
    v   = std::move(w);
    CHECK(w.capacity() == 0);
    CHECK(w.extent() == 0);
    return ops(v, m, b, op + 1, k - 1);
  }
  case 11: { // direct writes
    auto s = w.aux_span();
    size_t n = mn(s.size(), sym_pick(4, "n"));
    for (size_t i = 0; i < n; ++i) {
      s[i] = sym_u8("c");
      m.put(s[i]);
    }
    w.commit(n);
    break;
  }
  }
  ops(w, m, b, op + 1, k - 1);
}
HARNESS(h_bw_ops)
{
  static const size_t K = BOUND(3, 4);
  unsigned op[K];
  op[0]    = sym_split(12, "op");
  static const size_t CAPS[] = {0, 1, 3, 4, 2, 5};
  size_t n = CAPS[sym_split(BOUND(4, 6), "cap")];
  for (size_t i = 1; i < K; ++i)
    op[i] = sym_pick(12, "op");
  Block b(n, "init");
  Model m;
  m.n = m.cap = n;
  m.ext       = 0;
  for (size_t i = 0; i < n; ++i)
    m.m[i] = b[i];
  FixedBufferWriter w{b.p, n};
  ops(w, m, b, op, K);
}

HARNESS(h_bw_numbers)
{
  static const size_t K = BOUND(3, 4);
  uint64_t cap = sym_u64("cap"), lim = 1ull << 48;
  ASSUME(cap < lim);
  uint64_t full = cap, ext = 0;
  unsigned op[K];
  for (size_t i = 0; i < K; ++i)
    op[i] = i < 2 ? sym_split(6, "op") : sym_pick(6, "op");
  // memory is not touched: the address is never dereferenced unless a write fits
  FixedBufferWriter w{reinterpret_cast<char *>(0x1000), size_t(cap)};
  for (size_t i = 0; i < K; ++i) {
    uint64_t n = 0;
    if (op[i] < 4) {
      n = sym_u64("n");
      ASSUME(n < lim);
    }
    switch (op[i]) {
    case 0:
      w.commit(n);
      ext += n;
      break;
    case 1:
      w.discard(n);
      ext -= n < ext ? n : ext;
      break;
    case 2: {
      bool threw = false;
      try {
        w.restrict(n);
      } catch (std::invalid_argument &) {
        threw = true;
      }
      CHECK(threw == (n > cap));
      cap -= threw ? 0 : n;
      break;
    }
    case 3:
      ASSUME(n <= full - cap);
      w.restore(n);
      ext = ext < cap ? ext : cap;
      cap += n;
      break;
    case 4:
      w.clear();
      ext = 0;
      break;
    case 5: // nothing left: the write is only counted
      ASSUME(ext >= cap);
      w.write('x');
      w.write("yz", 2);
      ext += 3;
      break;
    }
    CHECK(w.extent() == ext);
    CHECK(w.capacity() == cap);
    uint64_t sz = ext < cap ? ext : cap;
    CHECK(w.size() == sz);
    CHECK(w.remaining() == cap - sz);
    CHECK(w.error() == (ext > cap));
    CHECK(w.view().size() == sz);
    CHECK(w.aux_span().size() == cap - sz);
    CHECK(any(ext >= cap, addr(w.aux_data()) == 0x1000 + ext));
    CHECK(any(ext <= cap, w.aux_data() == nullptr));
  }
}
HARNESS(h_bw_copy)
{
  size_t n   = sym_split(BOUND(6, 8), "cap");
  size_t ext = sym_pick(9, "ext");
  Block b(n, "init");
  Model m;
  m.n = m.cap = n;
  m.ext       = ext;
  for (size_t i = 0; i < n; ++i)
    m.m[i] = b[i];
  FixedBufferWriter w{b.p, n};
  w.commit(ext);
  uint64_t d = sym_u64("dst"), s = sym_u64("src"), k = sym_u64("n");
  w.copy(d, s, k);
  size_t lim = mn(n, ext);
  bool ok    = true;
  for (size_t i = 0; i < n; ++i) {
    // byte i is the copy of byte src + i - dst if that is one of the bytes copied and both are in the used part
    bool in   = all(i < lim, i >= d, i - d < k, s < lim, s + (i - d) < lim, s + (i - d) >= s);
    uint8_t v = m.m[i];
    for (size_t j = 0; j < lim; ++j)
      v = all(in, s + (i - d) == j) ? m.m[j] : v;
    ok = all(ok, uint8_t(b[i]) == v);
  }
  CHECKM(ok, "exactly the used bytes named are copied");
  CHECK(w.extent() == ext);
}
template <size_t N> static void local()
{
  LocalBufferWriter<N> w;
  uint8_t c[5];
  for (size_t i = 0; i < 5; ++i) {
    c[i] = sym_u8("c");
    w.write(char(c[i]));
    CHECK(w.extent() == i + 1);
    CHECK(w.capacity() == N);
  }
  bool ok = w.view().size() == N;
  for (size_t i = 0; i < N; ++i)
    ok = all(ok, uint8_t(w.data()[i]) == c[i]);
  CHECK(ok);
}
// A writer with only the operations that have no default.
struct Minimal : BufferWriter {
  char c[8];
  size_t n = 0;
  BufferWriter &write(char x) override
  {
    if (n < sizeof(c))
      c[n] = x;
    ++n;
    return *this;
  }
  using BufferWriter::write;
  const char *data() const override { return c; }
  bool error() const override { return n > sizeof(c); }
  size_t capacity() const override { return sizeof(c); }
  size_t extent() const override { return n; }
  bool commit(size_t) override { return false; }
  BufferWriter &discard(size_t) override { return *this; }
  BufferWriter &restrict(size_t) override { return *this; }
  BufferWriter &restore(size_t) override { return *this; }
  BufferWriter &copy(size_t, size_t, size_t) override { return *this; }
  std::ostream &operator>>(std::ostream &s) const override { return s; }
};
HARNESS(h_bw_kinds)
{
  switch (sym_pick(7, "kind")) {
  case 5: {
    Minimal w;
    size_t n = sym_pick(6, "n"), m = sym_pick(5, "m");
    Block a(n, "a"), b(m, "b");
    CHECK(&w.write(a.p, n) == &w);
    CHECK(&w.write(MemSpan<void const>{b.p, m}) == &w);
    CHECK(all(w.extent() == n + m, w.size() == mn(n + m, 8), w.remaining() == 8 - mn(n + m, 8)));
    for (size_t i = 0; i < n + m && i < 8; ++i)
      CHECK(w.c[i] == (i < n ? a[i] : b[i - n]));
    CHECK(all(w.aux_data() == nullptr, TextView(w).data() == w.c, TextView(w).size() == w.size()));
    break;
  }
  case 6: {
    Block a(3, "a");
    MemSpan<char> s{a.p, 3};
    FixedBufferWriter w{s};
    CHECK(all(w.data() == a.p, w.capacity() == 3, w.extent() == 0, w.aux_data() == a.p));
    uint8_t c = sym_u8("c");
    w.write(char(c)).write("xyz");
    CHECK(all(w.extent() == 4, uint8_t(a[0]) == c, a[1] == 'x', a[2] == 'y'));
    FixedBufferWriter z{MemSpan<char>{}};
    z.write('a');
    CHECK(all(z.extent() == 1, z.size() == 0));
    break;
  }
  case 0: {
    FixedBufferWriter w{nullptr};
    CHECK(w.capacity() == 0);
    w.write("abc");
    w.write('d');
    CHECK(w.extent() == 4);
    CHECK(w.size() == 0);
    CHECK(w.error());
    CHECK(w.view().empty());
    w.print("{}-{}", 12, "xy");
    CHECK(w.extent() == 9);
    break;
  }
  case 1: {
    uint64_t n = sym_u64("n");
    bool threw = false;
    try {
      FixedBufferWriter w{static_cast<char *>(nullptr), n};
    } catch (std::invalid_argument &) {
      threw = true;
    }
    CHECK(threw == (n != 0));
    break;
  }
  case 2:
    local<1>();
    local<2>();
    break;
  case 3: local<3>(); break;
  case 4: {
    Block a(3, "a"), b(2, "b");
    FixedBufferWriter w{MemSpan<void>{a.p, 3}};
    w.write("xyzw");
    CHECK(w.error());
    CHECK(TextView(w).size() == 3);
    CHECK(std::string_view(w) == "xyz");
    w.assign(MemSpan<char>{b.p, 2});
    CHECK(w.extent() == 0);
    CHECK(w.capacity() == 2);
    w.write("pq");
    CHECK(!w.error());
    CHECK(w.view() == "pq");
    CHECK(std::string_view(a.p, 3) == "xyz");
    w.detach();
    w.write("12");
    CHECK(w.size() == 0);
    CHECK(std::string_view(b.p, 2) == "pq");
    break;
  }
  }
}

struct Text { // expected text
  uint8_t c[600];
  size_t n = 0;
};
HARNESS(h_arena_writer)
{
  static const size_t K = BOUND(3, 4);
  static const size_t LEFT[] = {80, 0, 1, 3, 20, 60};
  unsigned left = sym_split(6, "left");
  unsigned op[K];
  for (size_t i = 0; i < K; ++i)
    op[i] = i < 2 ? sym_split(6, "op") : sym_pick(6, "op");
  swoc::MemArena ar{32}; // first block has 80 bytes
  size_t pre = 80 - LEFT[left];
  auto p     = ar.alloc(pre);
  if (left == 5) // more blocks
    ar.require(200);
  memset(p.data(), 0x33, pre);
  uint64_t before = ar.allocated_size();
  swoc::ArenaWriter w{ar};
  Text t;
  auto audit = [&] {
    CHECK(w.extent() == t.n);
    CHECK(w.size() == t.n);
    CHECK(!w.error());
    auto v = w.view();
    CHECK(v.size() == t.n);
    bool ok = true;
    for (size_t i = 0; i < t.n; ++i)
      ok = all(ok, uint8_t(v.data()[i]) == t.c[i]);
    CHECKM(ok, "the text is complete and in order");
  };
  for (size_t i = 0; i < K; ++i) {
    switch (op[i]) {
    case 0: {
      static const size_t LEN[] = {0, 1, 3, 81, 130};
      size_t n = LEN[sym_pick(5, "len")];
      Block s(n);
      for (size_t j = 0; j < n; ++j)
        s[j] = j < 3 || j + 2 > n ? sym_u8("c") : uint8_t(j);
      w.write(s.p, n);
      for (size_t j = 0; j < n; ++j)
        t.c[t.n++] = s[j];
      break;
    }
    case 1: {
      uint8_t c = sym_u8("c");
      w.write(char(c));
      t.c[t.n++] = c;
      break;
    }
    case 2: { // fill the unused part
      auto s   = w.aux_span();
      size_t n = s.size() > 90 ? 90 : s.size();
      for (size_t j = 0; j < n; ++j) {
        s[j]       = j < 2 ? sym_u8("c") : uint8_t(j + 1);
        t.c[t.n++] = s[j];
      }
      CHECK(w.commit(n));
      break;
    }
    case 3: { // commit of more than there is: nothing is added, but then there is room
      size_t r = w.remaining(), n = r + 1 + sym_pick(2, "more") * 99;
      CHECK(!w.commit(n));
      CHECK(w.remaining() >= n);
      auto s = w.aux_span();
      CHECK(s.size() >= n);
      break;
    }
    case 4: {
      size_t n = sym_pick(4, "n");
      w.discard(n);
      t.n -= mn(n, t.n);
      break;
    }
    case 5: {
      uint8_t c = sym_u8("c");
      w.print("{}{}{}", char(c), "-text of some length-", 12345);
      t.c[t.n++] = c;
      for (char const *s = "-text of some length-12345"; *s; ++s)
        t.c[t.n++] = *s;
      break;
    }
    }
    audit();
    CHECKM(ar.allocated_size() == before, "nothing is allocated by writing");
  }
  bool ok = true;
  for (size_t i = 0; i < pre; ++i)
    ok = all(ok, static_cast<uint8_t *>(p.data())[i] == 0x33);
  CHECKM(ok, "earlier allocation is intact");
  auto s = ar.alloc(w.extent());
  if (t.n)
    CHECKM(s.data() == w.data(), "allocation of the extent is the text");
  audit();
}
