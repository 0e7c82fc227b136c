// IntrusiveHashMap against a plain array of elements. Keys are symbolic: all bucket assignments, hash collisions and equal keys.
//@ entry h_map_seq props=C02 shards=8 time=600 : every history of 1..4 (thorough 5) operations out of insert (symbolic 8 bit key, so any bucket, collision or duplicate), erase by value / iterator / range / key range, expand, clear, from an empty map with 1, 3 or (one step less) 7 buckets, hash codes 0..3, each expansion policy, limit 0..1; find, equal_range of a symbolic key and full iteration checked after each history
//@ entry h_map_erase props=C02 shards=8 time=600 : 3 (thorough 4) elements with symbolic keys, then erase of every sub-range, then full check and insertion of a further element
//@ entry h_map_phases props=C02 shards=32 time=600 : 3 (thorough 4) elements with symbolic keys, erase of one or none, erase of every sub-range of the rest, 1 (thorough 2) more elements, in 1 or 3 buckets
//@ entry h_map_expand props=C02 shards=4 : bucket counts, expansion by policy and limit, for 1..3 (thorough 5) elements with symbolic keys
#include "vf.h"
#include "swoc/IntrusiveHashMap.h"
#include <utility>
using swoc::IntrusiveHashMap;
struct Item {
  Item *_next;
  Item *_prev;
  uint8_t key;
};
struct Desc { // different keys may have the same hash
  static Item *&next_ptr(Item *i) { return i->_next; }
  static Item *&prev_ptr(Item *i) { return i->_prev; }
  static uint8_t key_of(Item *i) { return i->key; }
  static uint32_t hash_of(uint8_t k) { return k >> 1 & 3; }
  static bool equal(uint8_t a, uint8_t b) { return a == b; }
};
using Map = IntrusiveHashMap<Desc>;
static const unsigned MAXN = 8;
struct Ref {
  unsigned n = 0;
  Item *e[MAXN];
  void add(Item *v) { e[n++] = v; }
  void drop(Item *v)
  {
    unsigned j = 0;
    for (unsigned i = 0; i < n; ++i)
      if (e[i] != v)
        e[j++] = e[i];
    n = j;
  }
};
static void same(Map &m, Ref const &r, bool lookup = true)
{
  Map const &c = m;
  CHECK(m.count() == r.n);
  // iteration visits exactly the elements, equal keys are adjacent
  Item *seen[MAXN];
  unsigned k = 0;
  for (auto &x : m) {
    CHECKM(k < r.n, "iteration visits no more elements than there are");
    seen[k++] = &x;
  }
  CHECKM(k == r.n, "iteration visits all elements");
  for (unsigned i = 0; i < r.n; ++i) {
    bool found = false;
    for (unsigned j = 0; j < k; ++j)
      found = found | (seen[j] == r.e[i]);
    CHECKM(found, "every element is visited");
  }
  bool adjacent = true;
  for (unsigned i = 0; i < k; ++i)
    for (unsigned j = i + 2; j < k; ++j)
      adjacent = all(adjacent, implies(seen[i]->key == seen[j]->key, seen[i]->key == seen[j - 1]->key));
  CHECKM(adjacent, "equal keys are adjacent");
  unsigned b = k;
  for (auto it = m.end(); b > 0; --b) {
    --it;
    CHECKM(static_cast<Item *>(it) == seen[b - 1], "backward iteration");
  }
  if (!lookup)
    return;
  for (unsigned i = 0; i < r.n; ++i) {
    auto it = m.find(r.e[i]);
    CHECKM(it != m.end() && &*it == r.e[i], "find by value");
    CHECK(m.iterator_for(r.e[i]) == it);
    CHECK(c.find(static_cast<Item const *>(r.e[i])) == it);
  }
  uint8_t probe = sym_u8("probe");
  auto f = m.find(probe);
  auto cr = c.equal_range(probe);
  auto er = m.equal_range(probe);
  bool any_p = false;
  unsigned cnt = 0;
  for (unsigned i = 0; i < r.n; ++i) {
    any_p = any_p | (r.e[i]->key == probe);
    cnt += r.e[i]->key == probe;
  }
  if (f == m.end()) {
    CHECKM(!any_p, "an existing key is found");
  } else
    CHECKM(f->key == probe, "the found element has the key");
  CHECK(c.find(probe) == f);
  unsigned got = 0;
  for (auto it = er.begin(); it != er.end(); ++it) {
    CHECKM(it->key == probe, "all elements of the equal range have the key");
    ++got;
  }
  CHECKM(got == cnt, "the equal range holds all the elements with the key");
  CHECK(cr.begin() == er.begin() && cr.end() == er.end());
}
static void unlinked(Item *v) { CHECKM(v->_next == nullptr && v->_prev == nullptr, "a removed element has no links"); }
static Item *pool;
static unsigned used;
static Item *fresh(const char *name)
{
  Item *v = pool + used++;
  v->_next = v->_prev = nullptr;
  v->key = sym_u8(name);
  return v;
}
HARNESS(h_map_seq)
{
  static const size_t SIZES[] = {0, 2, 5, 4};
  Item p[MAXN];
  pool = p;
  used = 0;
  unsigned sz = sym_split(3, "size");
  Map m{SIZES[sz]};
  CHECK(m.bucket_count() >= SIZES[sz] && m.bucket_count() > 0);
  unsigned pol = sym_split(3, "policy");
  m.set_expansion_policy(pol == 0 ? Map::MANUAL : pol == 1 ? Map::AVERAGE : Map::MAXIMUM);
  m.set_expansion_limit(pol == 0 ? 4 : sz == 2 ? 0 : 1);
  Ref r;
  unsigned steps = 1 + sym_split(BOUND(4, 5), "steps");
  if (sz == 2 && steps > BOUND(3, 4))
    sym_stop();
  for (unsigned k = 0; k < steps; ++k) {
    switch (k == 0 ? 0 : k == 1 ? sym_split(7, "op") : sym_pick(7, "op")) {
    case 0: {
      Item *v = fresh("key");
      m.insert(v);
      r.add(v);
      break;
    }
    case 1: {
      if (!r.n)
        sym_stop();
      Item *v = r.e[sym_pick(r.n, "which")];
      Item *nx = v->_next;
      if (sym_pick(2, "iter")) {
        auto it = m.erase(m.iterator_for(v));
        CHECK(static_cast<Item *>(it) == nx);
      } else
        CHECK(m.erase(v));
      r.drop(v);
      unlinked(v);
      break;
    }
    case 2: { // not in the map
      Item *v = fresh("other");
      CHECK(!m.erase(v));
      CHECK(m.find(v) == m.end());
      break;
    }
    case 3: { // all of a key
      uint8_t key = sym_u8("ekey");
      Item *gone[MAXN];
      unsigned g = 0;
      auto er = m.equal_range(key);
      for (auto it = er.begin(); it != er.end(); ++it)
        gone[g++] = &*it;
      auto it = m.erase(er);
      CHECK(it == er.end());
      for (unsigned i = 0; i < g; ++i) {
        r.drop(gone[i]);
        unlinked(gone[i]);
      }
      CHECK(m.find(key) == m.end());
      break;
    }
    case 4: {
      auto n = m.bucket_count();
      if (n > 30) // keep the tables small
        sym_stop();
      m.expand();
      CHECK(m.bucket_count() > n);
      break;
    }
    case 5:
      m.clear();
      r.n = 0;
      break;
    case 6: {
      Map o{std::move(m)};
      same(o, r);
      unsigned seen = 0;
      o.apply([&](Item &) { ++seen; });
      CHECK(seen == r.n);
      return;
    }
    }
    if (k + 1 == steps)
      same(m, r);
    else
      same(m, r, false);
  }
  REACH("done");
}
HARNESS(h_map_erase)
{
  Item p[MAXN];
  pool = p;
  used = 0;
  Map m{size_t(sym_split(2, "size") ? 1 : 3)};
  m.set_expansion_policy(Map::MANUAL);
  Ref r;
  static const unsigned N = BOUND(3, 4);
  for (unsigned i = 0; i < N; ++i) {
    Item *v = fresh("key");
    m.insert(v);
    r.add(v);
  }
  unsigned a = sym_split(N + 1, "first"), len = sym_split(N + 1, "len");
  if (a + len > N)
    sym_stop();
  auto first = m.begin();
  for (unsigned i = 0; i < a; ++i)
    ++first;
  auto limit = first;
  Item *gone[MAXN];
  for (unsigned i = 0; i < len; ++i) {
    gone[i] = limit;
    ++limit;
  }
  auto it = m.erase(first, limit);
  CHECK(it == limit);
  for (unsigned i = 0; i < len; ++i) {
    r.drop(gone[i]);
    unlinked(gone[i]);
  }
  same(m, r, false);
  Item *v = fresh("again");
  m.insert(v);
  r.add(v);
  same(m, r);
  REACH("done");
}
HARNESS(h_map_phases)
{
  Item p[MAXN];
  pool = p;
  used = 0;
  Map m{size_t(sym_split(2, "size") ? 1 : 3)};
  m.set_expansion_policy(Map::MANUAL);
  Ref r;
  static const unsigned N = BOUND(3, 4);
  auto add = [&](const char *name) {
    Item *v = fresh(name);
    m.insert(v);
    r.add(v);
  };
  for (unsigned i = 0; i < N; ++i)
    add("key");
  unsigned one = sym_split(N + 1, "one");
  if (one < N) {
    Item *v = r.e[one];
    CHECK(m.erase(v));
    r.drop(v);
    unlinked(v);
  }
  unsigned n = r.n, a = sym_split(N, "first"), len = sym_pick(N + 1, "len");
  if (a + len > n || (len == 0 && a > 0))
    sym_stop();
  auto first = m.begin();
  for (unsigned i = 0; i < a; ++i)
    ++first;
  auto limit = first;
  Item *gone[MAXN];
  for (unsigned i = 0; i < len; ++i) {
    gone[i] = limit;
    ++limit;
  }
  auto it = m.erase(first, limit);
  CHECK(it == limit);
  for (unsigned i = 0; i < len; ++i) {
    r.drop(gone[i]);
    unlinked(gone[i]);
  }
  add("again");
  if (BOUND(1, 2) == 2)
    add("last");
  same(m, r);
  REACH("done");
}
HARNESS(h_map_expand)
{
  Item p[MAXN];
  pool = p;
  used = 0;
  unsigned kind = sym_split(4, "kind");
  if (kind == 3) { // documented defaults
    Map m;
    CHECK(m.bucket_count() >= Map::DEFAULT_BUCKET_COUNT);
    CHECK(m.get_expansion_policy() == Map::DEFAULT_EXPANSION_POLICY && m.get_expansion_limit() == Map::DEFAULT_EXPANSION_LIMIT);
    CHECK(m.count() == 0 && m.begin() == m.end());
    same(m, Ref{});
    return;
  }
  Map m{size_t(3)};
  size_t limit = sym_pick(3, "limit");
  m.set_expansion_limit(limit);
  CHECK(m.get_expansion_limit() == limit);
  auto pol = kind == 0 ? Map::MANUAL : kind == 1 ? Map::AVERAGE : Map::MAXIMUM;
  m.set_expansion_policy(pol);
  CHECK(m.get_expansion_policy() == pol);
  Ref r;
  unsigned n = 1 + sym_pick(BOUND(3, 5), "n");
  auto buckets = m.bucket_count();
  for (unsigned i = 0; i < n; ++i) {
    Item *v = fresh("key");
    m.insert(v);
    r.add(v);
    if (kind == 0)
      CHECKM(m.bucket_count() == buckets, "no automatic expansion");
    if (kind == 1)
      CHECKM(m.count() / buckets > limit ? m.bucket_count() > buckets : m.bucket_count() == buckets, "expansion exactly if the average chain exceeds the limit");
    CHECK(m.get_expansion_policy() == pol);
    buckets = m.bucket_count();
  }
  same(m, r, false);
  // an erase makes room again
  Item *v = r.e[sym_pick(r.n, "drop")];
  CHECK(m.erase(v));
  r.drop(v);
  same(m, r);
  REACH("done");
}
