// Vectray against a plain sequence.
//@ entry h_vectray props=M07 shards=8 : every sequence of 3 (thorough 4) operations out of push_back (copy, move, of an own element), emplace_back, pop_back, reserve, move construction, move and copy assignment, copy construction, move to other static sizes, on static sizes 1, 2 and 3 starting with 0..3 elements, element values arbitrary, elements that own memory
//@ entry h_vectray_plain props=M07 shards=3 : sizes 0..6 of unsigned elements with 1, 2, 4 static elements, count constructor, spans, over-aligned elements
#include "vf.h"
#include <vector>
#include "swoc/Vectray.h"
using swoc::Vectray;

// Element that owns a heap cell: a missed or repeated destruction or a bytewise copy shows up as a leak, double free or bad access.
struct Cell {
  uint8_t *v;
  Cell() : v(new uint8_t(9)) {}
  explicit Cell(uint8_t x) : v(new uint8_t(x)) {}
  Cell(Cell const &t) : v(t.v ? new uint8_t(*t.v) : nullptr) {}
  Cell(Cell &&t) : v(t.v) { t.v = nullptr; }
  Cell &operator=(Cell const &t)
  {
    if (this != &t) {
      delete v;
      v = t.v ? new uint8_t(*t.v) : nullptr;
    }
    return *this;
  }
  Cell &operator=(Cell &&t)
  {
    std::swap(v, t.v);
    return *this;
  }
  ~Cell() { delete v; }
};
struct Model {
  uint8_t v[16];
  bool null[16] = {}; // moved from
  size_t n      = 0;
  void push(uint8_t x)
  {
    null[n] = false;
    v[n++]  = x;
  }
};
template <size_t N> static void same(Vectray<Cell, N> &a, Model const &m)
{
  Vectray<Cell, N> const &c = a;
  CHECK(a.size() == m.n);
  CHECK(a.empty() == (m.n == 0));
  CHECK(size_t(a.end() - a.begin()) == m.n);
  CHECK(size_t(c.end() - c.begin()) == m.n);
  bool ok = true;
  size_t i = 0;
  for (auto &e : a) {
    CHECK(&e == &a[i]);
    CHECK(&e == &c[i]);
    CHECK(&e == a.data() + i);
    CHECK(&e == c.data() + i);
    CHECK((e.v == nullptr) == m.null[i]);
    if (e.v)
      ok = all(ok, *e.v == m.v[i]);
    ++i;
  }
  CHECK(i == m.n);
  CHECKM(ok, "elements agree with the sequence");
  i = 0;
  for (auto const &e : c)
    CHECK(&e == c.data() + i++);
  if (m.n) {
    CHECK(&a.front() == a.data());
    CHECK(&c.front() == a.data());
    CHECK(&a.back() == a.data() + (m.n - 1));
    CHECK(&c.back() == a.data() + (m.n - 1));
  }
  swoc::MemSpan<Cell> sp = a;
  CHECK(sp.count() == m.n);
  swoc::MemSpan<Cell const> csp = c;
  CHECK(csp.count() == m.n);
  CHECK(csp.data() == a.data());
}
template <size_t N> static void ops(unsigned const *op, size_t k, Vectray<Cell, N> &a, Model m)
{
  same(a, m);
  if (!k)
    return;
  switch (*op) {
  case 0: {
    uint8_t x = sym_u8("x");
    Cell c{x};
    a.push_back(c);
    CHECK(c.v != nullptr);
    m.push(x);
    break;
  }
  case 1: {
    uint8_t x = sym_u8("x");
    Cell c{x};
    a.push_back(std::move(c));
    CHECKM(c.v == nullptr, "moved");
    m.push(x);
    break;
  }
  case 2: {
    uint8_t x = sym_u8("x");
    a.emplace_back(x);
    m.push(x);
    break;
  }
  case 3:
    if (!m.n)
      sym_stop();
    a.pop_back();
    --m.n;
    break;
  case 4:
    if (!m.n || m.null[0])
      sym_stop();
    a.push_back(a[0]);
    m.push(m.v[0]);
    break;
  case 5: {
    size_t n = sym_pick(6, "n");
    a.reserve(n);
    break;
  }
  case 6: { // move construction
    Vectray<Cell, N> b{std::move(a)};
    return ops(op + 1, k - 1, b, m);
  }
  case 7: { // move assignment
    Vectray<Cell, N> b;
    size_t had = sym_pick(3, "had");
    for (size_t i = 0; i < had; ++i)
      b.emplace_back(uint8_t(3));
    b = std::move(a);
    return ops(op + 1, k - 1, b, m);
  }
  case 8: { // copy construction
    Vectray<Cell, N> b{a};
    same(a, m);
    if (m.n && a[0].v) {
      CHECK(b[0].v != a[0].v);
      a[0] = Cell{1};
    }
    return ops(op + 1, k - 1, b, m);
  }
  case 9: { // copy assignment
    Vectray<Cell, N> b;
    size_t had = sym_pick(3, "had");
    for (size_t i = 0; i < had; ++i)
      b.emplace_back(uint8_t(3));
    b = a;
    same(a, m);
    return ops(op + 1, k - 1, b, m);
  }
  case 10:
    if constexpr (N == 3) {
      Vectray<Cell, 1> b{std::move(a)};
      same(b, m);
      return ops(op + 1, k - 1, b, m);
    } else {
      Vectray<Cell, 3> b{std::move(a)};
      same(b, m);
      return ops(op + 1, k - 1, b, m);
    }
  case 11: {
    if (!m.n || m.null[0])
      sym_stop();
    a.push_back(std::move(a[0]));
    m.push(m.v[0]);
    m.null[0] = true;
    break;
  }
  case 12:
    if (!m.n || m.null[0])
      sym_stop();
    a.emplace_back(a.front());
    m.push(m.v[0]);
    break;
  }
  ops(op + 1, k - 1, a, m);
}
template <size_t N> static void start(unsigned const *op, size_t k, size_t n0)
{
  Vectray<Cell, N> a;
  Model m;
  for (size_t i = 0; i < n0; ++i) {
    a.emplace_back(uint8_t(i));
    m.push(i);
  }
  ops(op, k, a, m);
}
HARNESS(h_vectray)
{
  static const size_t K = BOUND(3, 4);
  size_t n0 = sym_split(4, "n0");
  unsigned op[K];
  op[0] = sym_split(13, "op");
  for (size_t i = 1; i < K; ++i)
    op[i] = sym_pick(13, "op");
  auto live = sym_heap_live();
  switch (sym_pick(3, "N")) {
  case 0: start<1>(op, K, n0); break;
  case 1: start<2>(op, K, n0); break;
  case 2: start<3>(op, K, n0); break;
  }
  CHECKM(sym_heap_live() == live, "every element is destroyed exactly once");
}

struct alignas(32) Wide {
  uint32_t x;
  uint32_t pad[7];
};
template <size_t N> static void plain()
{
  size_t n = sym_pick(7, "n");
  Vectray<uint32_t, N> a;
  uint32_t v[7];
  for (size_t i = 0; i < n; ++i) {
    v[i] = sym_u32("v");
    if (i & 1)
      a.push_back(v[i]);
    else
      a.emplace_back(v[i]);
  }
  CHECK(a.size() == n);
  bool ok = true;
  for (size_t i = 0; i < n; ++i)
    ok = all(ok, a[i] == v[i]);
  CHECK(ok);
  swoc::MemSpan<uint32_t> s = a;
  CHECK(s.size() == n * 4 / sizeof(uint32_t));
  Vectray<uint32_t, N> b(n);
  CHECK(b.size() == n);
  ok = true;
  for (size_t i = 0; i < n; ++i)
    ok = all(ok, b[i] == 0);
  CHECK(ok);
  Vectray<Wide, N> w;
  for (size_t i = 0; i < n; ++i) {
    w.emplace_back(Wide{v[i], {}});
    CHECK((uint64_t)w.data() % alignof(Wide) == 0);
  }
  ok = true;
  for (size_t i = 0; i < n; ++i)
    ok = all(ok, w[i].x == v[i]);
  CHECK(ok);
}
HARNESS(h_vectray_plain)
{
  switch (sym_split(3, "N")) {
  case 0: plain<1>(); break;
  case 1: plain<2>(); break;
  case 2: plain<4>(); break;
  }
}
