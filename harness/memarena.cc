// MemArena: allocation geometry and lifetime. Sizes are symbolic: block sizes, rounding and carving are decided for all of them.
//@ entry h_arena_alloc props=M01 shards=8 : every sequence of 3 (thorough 4) allocations of any size up to 6000 with alignment 1, 8, 16, 64 (thorough also 2, 4096) for the first and 1 / 64, 1 / 16 for the others, in an arena with any size hint up to 6000 or a static block of 64, 80, 300 bytes
//@ entry h_arena_require props=M01 shards=8 : any allocation up to 3000 bytes, then require / remnant / remnant_span / alloc_span of any size up to 3000 and alignment up to 64, then the same allocation
//@ entry h_arena_content props=M01 shards=2 : localize / localize_c of 0..4 (thorough 6) arbitrary bytes, make, polymorphic allocator, across any filling of a block
//@ entry h_arena_history props=M02 shards=16 : every sequence of 4 (thorough 5) operations out of alloc (any size up to 3000), freeze, thaw, clear, discard all, discard one span, move construction, move assignment; arena with default hint or static block of 200 bytes
//@ entry h_arena_self props=M02 shards=1 : self contained arenas of any hint up to 3000, inversion, destruction
#include "vf.h"
#include "swoc/MemArena.h"
#include <new>
using swoc::MemArena;
using swoc::MemSpan;

static uint64_t addr(void const *p) { return (uint64_t)p; }
struct Rec {
  uint64_t a, n;
  int gen; // 0 active, 1 frozen, -1 dead
};
struct Book {
  Rec r[8];
  int k = 0;
};
// the allocation is inside the used part of one block of the arena
static bool in_block(MemArena const &ar, uint64_t a, uint64_t n, int gen)
{
  bool ok = false;
  auto b = gen ? ar.frozen_begin() : ar.begin(), e = gen ? ar.frozen_end() : ar.end();
  for (; b != e; ++b)
    ok = any(ok, all(addr(b->data()) <= a, a + n <= addr(b->allocated_data_end())));
  return ok;
}
static bool disjoint(uint64_t a, uint64_t n, uint64_t b, uint64_t m) { return any(n == 0, m == 0, a + n <= b, b + m <= a); }
static void check_new(MemArena const &ar, Book &bk, MemSpan<void> s, uint64_t n, uint64_t al)
{
  uint64_t a = addr(s.data());
  CHECKM(s.size() == n, "allocation has the requested size");
  CHECKM((a & (al - 1)) == 0, "allocation is aligned");
  sym_valid(s.data(), n, "allocation is in live memory");
  CHECKM(in_block(ar, a, n, 0), "allocation is inside the used part of a block");
  for (int i = 0; i < bk.k; ++i)
    if (bk.r[i].gen >= 0)
      CHECKM(disjoint(a, n, bk.r[i].a, bk.r[i].n), "allocation does not overlap a live allocation");
  bk.r[bk.k++] = {a, n, 0};
}
static const size_t STATIC_SIZES[] = {64, 80, 300};
static const size_t ALIGN[]        = {1, 8, 16, 64, 2, 4096};

HARNESS(h_arena_alloc)
{
  unsigned v = sym_split(4, "ctor");
  static const size_t N = BOUND(3, 4);
  size_t al[N];
  for (size_t i = 0; i < N; ++i)
    al[i] = ALIGN[i == 0 ? sym_split(BOUND(4, 6), "align") : sym_pick(2, "align") * (i == 1 ? 3 : 2)];
  Block st(v ? STATIC_SIZES[v - 1] : 1);
  sym_heap_mode(16384);
  uint64_t hint = 0;
  if (!v) {
    hint = sym_u64("hint");
    ASSUME(hint <= 6000);
  }
  auto live = sym_heap_live();
  {
    MemArena ar = v ? MemArena{MemSpan<void>{st.p, st.n}} : MemArena{size_t(hint)};
    Book bk;
    for (size_t i = 0; i < N; ++i) {
      uint64_t n = sym_u64("n");
      ASSUME(n <= 6000);
      check_new(ar, bk, ar.alloc(n, al[i]), n, al[i]);
    }
    for (int i = 0; i < bk.k; ++i) {
      sym_valid((void *)bk.r[i].a, bk.r[i].n, "allocation stays in live memory");
      CHECKM(in_block(ar, bk.r[i].a, bk.r[i].n, 0), "allocation stays inside the used part of a block");
    }
  }
  CHECKM(sym_heap_live() == live, "all memory is released by the destructor");
}

struct T24 {
  uint64_t a[3];
};
struct alignas(64) T64 {
  char a[64];
};
template <class T> static void typed(MemArena &ar, Book &bk, unsigned how, uint64_t n)
{
  MemSpan<T> r;
  if (how == 0) {
    r = ar.remnant_span<T>(n);
    CHECKM(r.count() == n, "remnant span has the requested number of elements");
    CHECKM(addr(r.data()) % alignof(T) == 0, "remnant span is aligned");
    sym_valid(r.data(), n * sizeof(T), "remnant is in live memory");
  }
  MemSpan<T> s = ar.alloc_span<T>(n);
  CHECK(s.count() == n);
  check_new(ar, bk, s, n * sizeof(T), alignof(T));
  if (how == 0)
    CHECKM(r.data() == s.data(), "remnant span is the memory of the following allocation");
}
HARNESS(h_arena_require)
{
  unsigned op = sym_split(8, "op");
  sym_heap_mode(16384);
  MemArena ar{100};
  Book bk;
  uint64_t n0 = sym_u64("n0"), n = sym_u64("n");
  ASSUME(n0 <= 3000);
  ASSUME(n <= 3000);
  check_new(ar, bk, ar.alloc(n0), n0, 1);
  switch (op) {
  case 0:
  case 1: {
    size_t al = ALIGN[sym_pick(4, "align")];
    ar.require(n, al);
    uint64_t rem = ar.remaining(), a = addr(ar.remnant().data());
    CHECK(ar.remnant().size() == rem);
    CHECK(ar.allocated_size() == n0);
    CHECKM(rem >= n, "required space is available");
    sym_valid(ar.remnant().data(), rem, "remnant is in live memory");
    uint64_t m = n;
    if (op == 1) {
      m = sym_u64("m");
      ASSUME(m <= n);
    }
    auto s = ar.alloc(m, al);
    CHECKM(all(addr(s.data()) >= a, addr(s.data()) + m <= a + rem), "an allocation no larger than required comes from the remnant");
    check_new(ar, bk, s, m, al);
    break;
  }
  case 2: {
    size_t al = ALIGN[sym_pick(4, "align")];
    auto r    = ar.remnant(n, al);
    CHECKM(r.size() == n, "remnant has the requested size");
    CHECKM((addr(r.data()) & (al - 1)) == 0, "remnant is aligned");
    sym_valid(r.data(), n, "remnant is in live memory");
    CHECK(disjoint(addr(r.data()), n, bk.r[0].a, n0));
    CHECK(ar.allocated_size() == n0);
    auto s = ar.alloc(n, al);
    CHECKM(s.data() == r.data(), "remnant is the memory of the following allocation");
    check_new(ar, bk, s, n, al);
    break;
  }
  case 3: typed<uint8_t>(ar, bk, 0, n); break;
  case 4: typed<uint32_t>(ar, bk, sym_pick(2, "how"), n); break;
  case 5: typed<T24>(ar, bk, sym_pick(2, "how"), n & 127); break;
  case 6: typed<T64>(ar, bk, sym_pick(2, "how"), n & 31); break;
  case 7: {
    auto r = ar.remnant_span<void>(n);
    CHECK(r.size() == n);
    auto s = ar.alloc(n);
    CHECK(r.data() == s.data());
    check_new(ar, bk, s, n, 1);
    // nothing is required twice
    uint64_t res = ar.reserved_size();
    ar.require(ar.remaining());
    CHECK(ar.reserved_size() == res);
    break;
  }
  }
}

HARNESS(h_arena_content)
{
  unsigned op = sym_split(6, "op");
  size_t k    = sym_pick(BOUND(5, 7), "len");
  uint64_t pre = sym_u64("pre");
  ASSUME(pre <= 200);
  pre = sym_pick(2, "full") ? 200 - sym_concrete(pre & 7) : 0;
  Block src(k, "src");
  MemArena ar{160};
  auto p = ar.alloc(pre);
  memset(p.data(), 7, pre);
  auto ok_pre = [&] {
    bool ok = true;
    for (size_t i = 0; i < pre; ++i)
      ok = all(ok, static_cast<uint8_t *>(p.data())[i] == 7);
    CHECKM(ok, "earlier allocation is intact");
  };
  auto same = [&](char const *q) {
    bool ok = true;
    for (size_t i = 0; i < k; ++i)
      ok = all(ok, q[i] == src[i]);
    return ok;
  };
  switch (op) {
  case 0: {
    auto s = ar.localize(MemSpan<char const>{src.p, k});
    CHECK(s.size() == k);
    CHECK(same(s.data()));
    CHECK(ar.size() == pre + k);
    break;
  }
  case 1: {
    auto s = ar.localize_c(MemSpan<char const>{src.p, k});
    CHECK(s.size() == k);
    CHECK(s.data()[k] == 0);
    CHECK(same(s.data()));
    CHECK(ar.contains(s.data()));
    break;
  }
  case 2: {
    Block c(k + 1);
    for (size_t i = 0; i < k; ++i) {
      ASSUME(src[i] != 0);
      c[i] = src[i];
    }
    c[k] = 0;
    auto s = ar.localize(c.p);
    CHECK(s.size() == k);
    CHECK(same(s.data()));
    auto t = ar.localize_c(c.p);
    CHECK(same(t.data()));
    CHECK(t.data()[k] == 0);
    CHECK(same(s.data()));
    break;
  }
  case 3: {
    struct Th {
      uint64_t x;
      char c;
      Th(uint64_t x, char c) : x(x), c(c) {}
    };
    uint64_t x = sym_u64("x");
    auto t     = ar.make<Th>(x, 'q');
    auto u     = ar.make<Th>(x + 1, 'r');
    CHECK(addr(t) % alignof(Th) == 0);
    CHECK(disjoint(addr(t), sizeof(Th), addr(u), sizeof(Th)));
    CHECK(t->x == x);
    CHECK(t->c == 'q');
    CHECK(u->x == x + 1);
    CHECK(u->c == 'r');
    break;
  }
  case 4: {
    std::pmr::memory_resource *r = &ar;
    auto a  = r->allocate(24, 8);
    auto b  = r->allocate(k, 32);
    memset(a, 1, 24);
    memset(b, 2, k);
    CHECK(addr(a) % 8 == 0);
    CHECK(addr(b) % 32 == 0);
    CHECK(disjoint(addr(a), 24, addr(b), k));
    r->deallocate(a, 24, 8);
    CHECK(ar.contains(a));
    CHECK(r->is_equal(ar));
    MemArena ar2;
    CHECK(!r->is_equal(ar2));
    break;
  }
  case 5: { // static block: nothing is written outside it, and it is used first
    Block st(96);
    MemArena as{MemSpan<void>{st.p, 96}};
    auto s = as.localize(MemSpan<char const>{src.p, k});
    CHECK(same(s.data()));
    CHECK(all(addr(s.data()) >= addr(st.p), addr(s.data()) + k <= addr(st.p) + 96));
    auto t = as.alloc(64 - k + 1);
    memset(t.data(), 3, t.size());
    CHECK(disjoint(addr(t.data()), t.size(), addr(st.p), 96));
    CHECK(same(s.data()));
    break;
  }
  }
  ok_pre();
}

static uint64_t sum(Book const &b, int gen)
{
  uint64_t s = 0;
  for (int i = 0; i < b.k; ++i)
    if (b.r[i].gen == gen)
      s += b.r[i].n;
  return s;
}
static void kill(Book &b, int gen)
{
  for (int i = 0; i < b.k; ++i)
    if (b.r[i].gen == gen)
      b.r[i].gen = -1;
}
static void audit(MemArena const &ar, Book const &b, void const *stat, uint64_t live0)
{
  uint64_t act = sum(b, 0), fro = sum(b, 1);
  CHECKM(ar.size() == act, "size is the sum of the active allocations");
  CHECKM(ar.allocated_size() == act + fro, "allocated size is the sum of the live allocations");
  for (int i = 0; i < b.k; ++i) {
    if (b.r[i].gen < 0)
      continue;
    sym_valid((void *)b.r[i].a, b.r[i].n, "live allocation is in live memory");
    CHECKM(any(b.r[i].n == 0, in_block(ar, b.r[i].a, b.r[i].n, b.r[i].gen)), "live allocation is inside the used part of a block of its generation");
  }
  uint64_t res = 0, nb = 0, used = 0;
  int seen_static = 0, guard = 0;
  for (auto e = ar.begin(); e != ar.end() && guard < 12; ++e, ++guard) {
    res += e->remaining() + (e->allocated_data_end() - e->data());
    used += e->allocated_data_end() - e->data();
    if (e->data() - 32 == stat)
      ++seen_static;
    else
      ++nb;
  }
  for (auto e = ar.frozen_begin(); e != ar.frozen_end() && guard < 12; ++e, ++guard) {
    res += e->remaining() + (e->allocated_data_end() - e->data());
    used += e->allocated_data_end() - e->data();
    if (e->data() - 32 == stat)
      ++seen_static;
    else
      ++nb;
  }
  CHECKM(guard < 12, "block lists are finite");
  CHECKM(seen_static <= 1, "static block is listed once");
  CHECKM(ar.reserved_size() == res, "reserved size is the size of all blocks");
  CHECKM(used <= res, "used part is within the blocks");
  CHECKM(sym_heap_live() == live0 + nb, "exactly the listed blocks are held");
}
HARNESS(h_arena_history)
{
  static const size_t K = BOUND(4, 5);
  bool stat = sym_split(2, "static");
  unsigned ops[K];
  ops[0] = 0;
  for (size_t i = 1; i < K; ++i)
    ops[i] = i == 1 ? sym_split(8, "op") : sym_pick(8, "op");
  Block st(200);
  sym_heap_mode(65536);
  auto live0 = sym_heap_live();
  {
    MemArena a0 = stat ? MemArena{MemSpan<void>{st.p, st.n}} : MemArena{};
    MemArena a1, a2;
    if (stat) {
      // the target of the move assignment has something of its own to release
      a1.alloc(10);
    }
    alignas(MemArena) char mbuf[sizeof(MemArena)];
    MemArena *ar = &a0, *moved = nullptr;
    uint64_t base = sym_heap_live();
    Book bk;
    for (size_t i = 0; i < K; ++i) {
      switch (ops[i]) {
      case 0: {
        uint64_t n = sym_u64("n");
        ASSUME(n <= 3000);
        check_new(*ar, bk, ar->alloc(n), n, 1);
        break;
      }
      case 1: {
        kill(bk, 1);
        for (int j = 0; j < bk.k; ++j)
          if (bk.r[j].gen == 0)
            bk.r[j].gen = 1;
        ar->freeze();
        audit(*ar, bk, st.p, base);
        if (i == K - 1) {
          uint64_t want = sum(bk, 1);
          ar->require(1);
          CHECKM(ar->remaining() >= want, "the first block after a freeze has room for the frozen allocations");
        }
        break;
      }
      case 2:
        kill(bk, 1);
        ar->thaw();
        break;
      case 3:
        kill(bk, 0);
        kill(bk, 1);
        ar->clear();
        CHECK(ar->reserved_size() == 0);
        CHECK(ar->begin() == ar->end());
        break;
      case 4: {
        auto res = ar->reserved_size();
        kill(bk, 0);
        ar->discard();
        CHECK(ar->reserved_size() == res);
        break;
      }
      case 5: { // discard a span
        if (!bk.k)
          break;
        int j = sym_pick(bk.k, "span");
        if (bk.r[j].gen < 0)
          sym_stop();
        auto before = ar->allocated_size();
        ar->discard(MemSpan<void const>{(void *)bk.r[j].a, bk.r[j].n});
        auto after = ar->allocated_size();
        bool last  = j == bk.k - 1 && ops[i - 1] == 0;
        CHECKM(any(after == before, after == before - bk.r[j].n), "discard of a span removes all or nothing of it");
        if (last)
          CHECKM(after == before - bk.r[j].n, "discard of the most recent allocation works");
        if (after != before)
          bk.r[j].gen = -1;
        break;
      }
      case 6:
        if (moved)
          sym_stop();
        moved = new (mbuf) MemArena(std::move(*ar));
        CHECK(ar->allocated_size() == 0);
        CHECK(ar->reserved_size() == 0);
        CHECK(ar->begin() == ar->end());
        CHECK(ar->frozen_begin() == ar->frozen_end());
        ar = moved;
        break;
      case 7: {
        MemArena *t = ar == &a1 ? &a2 : &a1;
        uint64_t had = t->begin() != t->end();
        *t           = std::move(*ar);
        base -= had;
        CHECK(ar->allocated_size() == 0);
        CHECK(ar->begin() == ar->end());
        CHECK(ar->frozen_begin() == ar->frozen_end());
        ar = t;
        break;
      }
      }
      audit(*ar, bk, st.p, base);
    }
    // containment, for any address, given relative to one of the blocks (so that it replays)
    uint64_t t = sym_u64("q"), at[12];
    size_t nq = 0;
    for (auto e = ar->begin(); e != ar->end() && nq < 11; ++e)
      at[nq++] = addr(e->data());
    for (auto e = ar->frozen_begin(); e != ar->frozen_end() && nq < 11; ++e)
      at[nq++] = addr(e->data());
    if (nq) {
      size_t w = sym_pick(nq, "anchor");
      if (w)
        ASSUME(t < 8192); // any address at all is covered by the first one
      t += at[w] - 64;
    }
    ASSUME(t < (1ull << 62));
    {
      bool inl = false;
      for (int j = 0; j < bk.k; ++j)
        if (bk.r[j].gen >= 0)
          inl = any(inl, all(t >= bk.r[j].a, t < bk.r[j].a + bk.r[j].n));
      bool inb = false;
      for (auto e = ar->begin(); e != ar->end(); ++e)
        inb = any(inb, all(addr(e->data()) <= t, t < addr(e->allocated_data_end()) + e->remaining()));
      for (auto e = ar->frozen_begin(); e != ar->frozen_end(); ++e)
        inb = any(inb, all(addr(e->data()) <= t, t < addr(e->allocated_data_end()) + e->remaining()));
      bool c = ar->contains((void *)t);
      CHECKM(implies(inl, c), "live allocations are contained");
      CHECKM(c == inb, "containment is exactly the memory of the blocks");
    }
    if (moved)
      moved->~MemArena();
  }
  CHECKM(sym_heap_live() == live0, "every block is released exactly once");
}

HARNESS(h_arena_self)
{
  sym_heap_mode(16384);
  auto live0 = sym_heap_live();
  uint64_t h = sym_u64("hint"), n = sym_u64("n");
  ASSUME(h <= 3000);
  ASSUME(n <= 3000);
  {
    Book bk;
    MemArena *ar = MemArena::construct_self_contained(h);
    CHECK(ar->contains(ar));
    bk.r[bk.k++] = {addr(ar), sizeof(MemArena), 0};
    CHECK(ar->allocated_size() == sizeof(MemArena));
    CHECK(ar->remaining() >= h);
    check_new(*ar, bk, ar->alloc(n), n, 1);
    CHECK(ar->allocated_size() == sizeof(MemArena) + n);
    if (sym_pick(2, "how"))
      MemArena::destroyer(ar);
    else
      MemArena::unique_ptr p(ar, MemArena::destroyer);
  }
  CHECK(sym_heap_live() == live0);
  {
    MemArena ta;
    Book bk;
    check_new(ta, bk, ta.alloc(n), n, 1);
    MemArena *ar = ta.make<MemArena>(std::move(ta));
    CHECK(ta.begin() == ta.end());
    CHECK(ta.allocated_size() == 0);
    CHECK(ar->contains((void *)bk.r[0].a) == any(n != 0, ar->contains((void *)bk.r[0].a)));
    CHECK(ar->contains(ar));
    CHECK(ar->allocated_size() == n + sizeof(MemArena));
    ar->~MemArena();
  }
  CHECK(sym_heap_live() == live0);
}
