// FixedArena: free list of destroyed objects in an arena.
//@ entry h_fixed_arena props=M04 shards=8 : every history of 6 (thorough 8) operations out of make, destroy of any live object (including null), clear, allocation from the underlying arena; object values arbitrary; small and default sized arenas
//@ entry h_fixed_kinds props=M04 shards=1 : objects of other sizes and alignments, constructor arguments, destructor calls
#include "vf.h"
#include "swoc/MemArena.h"
using swoc::FixedArena;
using swoc::MemArena;
using swoc::MemSpan;
static uint64_t addr(void const *p) { return (uint64_t)p; }
static int g_ctor, g_dtor;
struct Obj {
  uint64_t a;
  uint32_t b;
  Obj(uint64_t a, uint32_t b) : a(a), b(b) { ++g_ctor; }
  ~Obj() { ++g_dtor; }
};
HARNESS(h_fixed_arena)
{
  static const size_t K = BOUND(6, 8);
  unsigned hint = sym_pick(2, "hint");
  MemArena ar{hint ? size_t(40) : size_t(4000)};
  FixedArena<Obj> fa{ar};
  CHECK(&fa.arena() == &ar);
  struct L {
    Obj *p;
    uint64_t a;
    uint32_t b;
  } live[K];
  size_t n = 0, freed = 0;
  char *raw[K];
  size_t nraw = 0;
  int made = 0, dead = 0;
  for (size_t i = 0; i < K; ++i) {
    switch (i < 3 ? sym_split(4, "op") : sym_pick(4, "op")) {
    case 0: {
      uint64_t a = sym_u64("a");
      uint32_t b = sym_u32("b");
      auto before = ar.allocated_size();
      Obj *p = fa.make(a, b);
      CHECK(addr(p) % alignof(Obj) == 0);
      sym_valid(p, sizeof(Obj), "object is in live memory");
      CHECK(ar.contains(p));
      if (freed) {
        CHECKM(ar.allocated_size() == before, "memory of a destroyed object is used again");
        --freed;
      } else
        CHECK(ar.allocated_size() == before + sizeof(Obj));
      for (size_t j = 0; j < n; ++j)
        CHECKM(any(addr(p) + sizeof(Obj) <= addr(live[j].p), addr(live[j].p) + sizeof(Obj) <= addr(p)), "objects do not overlap");
      for (size_t j = 0; j < nraw; ++j)
        CHECKM(any(addr(p) + sizeof(Obj) <= addr(raw[j]), addr(raw[j]) + 5 <= addr(p)), "object does not overlap other allocations");
      live[n++] = {p, a, b};
      ++made;
      break;
    }
    case 1: {
      size_t j = sym_pick(n + 1, "which");
      if (j == n) {
        fa.destroy(nullptr);
        break;
      }
      fa.destroy(live[j].p);
      live[j] = live[--n];
      ++freed;
      ++dead;
      break;
    }
    case 2:
      fa.clear();
      freed = 0;
      break;
    case 3: {
      auto s = ar.alloc(5);
      memset(s.data(), 0x5a, 5);
      raw[nraw++] = (char *)s.data();
      break;
    }
    }
    CHECK(g_ctor == made);
    CHECK(g_dtor == dead);
    bool ok = true;
    for (size_t j = 0; j < n; ++j)
      ok = all(ok, live[j].p->a == live[j].a, live[j].p->b == live[j].b);
    CHECKM(ok, "live objects keep their value");
    for (size_t j = 0; j < nraw; ++j)
      for (int k = 0; k < 5; ++k)
        ok = all(ok, raw[j][k] == 0x5a);
    CHECKM(ok, "other allocations are intact");
  }
}
struct alignas(32) Wide {
  uint64_t v[4];
  Wide(uint64_t x) : v{x, x, x, x} {}
};
HARNESS(h_fixed_kinds)
{
  uint64_t x = sym_u64("x"), y = sym_u64("y");
  MemArena ar;
  {
    FixedArena<Wide> fa{ar};
    ar.alloc(1);
    Wide *p = fa.make(x);
    Wide *q = fa.make(y);
    CHECK(addr(p) % 32 == 0);
    CHECK(addr(q) % 32 == 0);
    CHECK(all(p->v[0] == x, p->v[3] == x, q->v[0] == y, q->v[3] == y));
    fa.destroy(p);
    fa.destroy(q);
    Wide *r = fa.make(x);
    Wide *s = fa.make(y);
    Wide *t = fa.make(x);
    CHECK(any(all(r == q, s == p), all(r == p, s == q)));
    CHECK(t != p);
    CHECK(t != q);
    CHECK(all(r->v[0] == x, r->v[3] == x, s->v[0] == y, s->v[3] == y));
  }
  {
    FixedArena<uint64_t> fb{ar};
    uint64_t *p = fb.make(x);
    uint64_t *q = fb.make(y);
    CHECK(p != q);
    fb.destroy(p);
    CHECK(*q == y);
    uint64_t *r = fb.make(y);
    CHECK(r == p);
    CHECK(*r == y);
  }
}
