#include <cmath>
#include <algorithm>
#include "expr.h"
#include <unordered_map>
#include <map>
#include <deque>
#include <algorithm>
#include <cstring>

std::vector<VarInfo> g_vars;
uint64_t g_nexprs = 0;
static std::map<std::string, unsigned> g_varmap;

// ---- var sets ----
namespace {
struct VSHash { size_t operator()(VarSet const *v) const { return v->hash; } };
struct VSEq { bool operator()(VarSet const *a, VarSet const *b) const { return a->bits == b->bits; } };
std::unordered_map<VarSet const *, VarSet const *, VSHash, VSEq> g_vs;
struct PairHash { size_t operator()(std::pair<VarSet const *, VarSet const *> const &p) const { return (size_t)p.first * 31 + (size_t)p.second * 17; } };
std::unordered_map<std::pair<VarSet const *, VarSet const *>, VarSet const *, PairHash> g_vsu;
VarSet const *vs_intern(std::vector<uint64_t> bits)
{
  while (!bits.empty() && !bits.back())
    bits.pop_back();
  VarSet tmp;
  tmp.bits = std::move(bits);
  tmp.hash = 1469598103934665603ull;
  for (auto b : tmp.bits) {
    tmp.hash ^= b;
    tmp.hash *= 1099511628211ull;
    tmp.hash ^= tmp.hash >> 29;
  }
  auto it = g_vs.find(&tmp);
  if (it != g_vs.end())
    return it->second;
  auto *n = new VarSet(tmp);
  g_vs[n] = n;
  return n;
}
} // namespace
VarSet const *vs_empty()
{
  static VarSet const *e = vs_intern({});
  return e;
}
VarSet const *vs_single(unsigned v)
{
  std::vector<uint64_t> b(v / 64 + 1, 0);
  b[v / 64] |= 1ull << (v % 64);
  return vs_intern(b);
}
VarSet const *vs_union(VarSet const *a, VarSet const *b)
{
  if (a == b || b->bits.empty())
    return a;
  if (a->bits.empty())
    return b;
  if (a > b)
    std::swap(a, b);
  auto key = std::make_pair(a, b);
  auto it = g_vsu.find(key);
  if (it != g_vsu.end())
    return it->second;
  std::vector<uint64_t> r(std::max(a->bits.size(), b->bits.size()), 0);
  for (size_t i = 0; i < a->bits.size(); i++)
    r[i] |= a->bits[i];
  for (size_t i = 0; i < b->bits.size(); i++)
    r[i] |= b->bits[i];
  return g_vsu[key] = vs_intern(r);
}

// ---- hash consing ----
static std::deque<Expr> g_pool;
static std::vector<Expr *> g_tab(1 << 16, nullptr);
static uint32_t g_stamp = 1;

static inline size_t hash_of(Op op, unsigned w, Expr *a, Expr *b, Expr *d, u128 c)
{
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
  auto mix = [&](uint64_t x) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
  };
  mix(a ? a->id + 1 : 0);
  mix(b ? b->id + 1 : 0);
  mix(d ? d->id + 1 : 0);
  mix((uint64_t)c);
  mix((uint64_t)(c >> 64));
  return h;
}

static void analyse(Expr *e);

static Expr *mk(Op op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr, u128 c = 0)
{
  size_t h = hash_of(op, w, a, b, d, c);
  size_t m = g_tab.size() - 1, i = h & m;
  while (Expr *e = g_tab[i]) {
    if (e->op == op && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == d && e->c == c)
      return e;
    i = (i + 1) & m;
  }
  g_pool.emplace_back();
  Expr *e = &g_pool.back();
  e->op = op;
  e->w = w;
  e->id = g_nexprs++;
  e->k[0] = a;
  e->k[1] = b;
  e->k[2] = d;
  e->c = c;
  VarSet const *vs = vs_empty();
  if (op == OVar)
    vs = vs_single((unsigned)c);
  else
    for (auto k : e->k)
      if (k)
        vs = vs_union(vs, k->vars);
  e->vars = vs;
  e->fp   = op >= OFFix;
  for (auto k : e->k)
    if (k && k->fp)
      e->fp = true;
  analyse(e);
  g_tab[i] = e;
  if (g_nexprs * 2 > g_tab.size()) {
    std::vector<Expr *> nt(g_tab.size() * 2, nullptr);
    size_t nm = nt.size() - 1;
    for (auto x : g_tab)
      if (x) {
        size_t j = hash_of(x->op, x->w, x->k[0], x->k[1], x->k[2], x->c) & nm;
        while (nt[j])
          j = (j + 1) & nm;
        nt[j] = x;
      }
    g_tab.swap(nt);
  }
  return e;
}

static unsigned hibit(u128 v)
{
  unsigned n = 0;
  while (v) {
    n++;
    v >>= 1;
  }
  return n;
}

static void analyse(Expr *e)
{
  u128 M = mask_of(e->w);
  e->kz = e->ko = 0;
  e->lo = 0;
  e->hi = M;
  Expr *a = e->k[0], *b = e->k[1], *d = e->k[2];
  switch (e->op) {
  case OConst:
    e->ko = e->c;
    e->kz = ~e->c & M;
    e->lo = e->hi = e->c;
    return;
  case OVar:
    return;
  case OAnd:
    e->ko = a->ko & b->ko;
    e->kz = a->kz | b->kz;
    e->hi = std::min(a->hi, b->hi);
    break;
  case OOr:
    e->ko = a->ko | b->ko;
    e->kz = a->kz & b->kz;
    e->lo = std::max(a->lo, b->lo);
    break;
  case OXor:
    e->ko = (a->ko & b->kz) | (a->kz & b->ko);
    e->kz = (a->ko & b->ko) | (a->kz & b->kz);
    break;
  case OAdd: {
    // no wrap -> range
    u128 h = a->hi + b->hi;
    if (h >= a->hi && h <= M) {
      e->lo = a->lo + b->lo;
      e->hi = h;
    }
    // trailing known zero bits
    unsigned t = 0;
    while (t < e->w && ((a->kz & b->kz) >> t & 1))
      t++;
    e->kz |= mask_of(t) & M;
    break;
  }
  case OSub:
    if (a->lo >= b->hi) {
      e->lo = a->lo - b->hi;
      e->hi = a->hi - b->lo;
    }
    break;
  case OMul: {
    unsigned ha = hibit(a->hi), hb = hibit(b->hi);
    if (ha + hb <= e->w && ha + hb < 128) {
      e->lo = a->lo * b->lo;
      e->hi = a->hi * b->hi;
    }
    unsigned ta = 0, tb = 0;
    while (ta < e->w && (a->kz >> ta & 1))
      ta++;
    while (tb < e->w && (b->kz >> tb & 1))
      tb++;
    unsigned t = std::min<unsigned>(ta + tb, e->w);
    e->kz |= mask_of(t) & M;
    break;
  }
  case OUDiv:
    if (b->lo > 0) {
      e->hi = a->hi / b->lo;
      e->lo = a->lo / b->hi;
    }
    break;
  case OURem:
    if (b->lo > 0)
      e->hi = std::min(a->hi, b->hi - 1);
    break;
  case OShl:
    if (b->is_const() && b->c < e->w) {
      unsigned s = (unsigned)b->c;
      e->kz = ((a->kz << s) | mask_of(s)) & M;
      e->ko = (a->ko << s) & M;
      if (hibit(a->hi) + s <= e->w) {
        e->lo = a->lo << s;
        e->hi = a->hi << s;
      }
    }
    break;
  case OLShr:
    if (b->is_const() && b->c < e->w) {
      unsigned s = (unsigned)b->c;
      e->kz = (a->kz >> s) | (M & ~(M >> s));
      e->ko = a->ko >> s;
      e->lo = a->lo >> s;
      e->hi = a->hi >> s;
    } else
      e->hi = a->hi;
    break;
  case OIte:
    e->kz = b->kz & d->kz;
    e->ko = b->ko & d->ko;
    e->lo = std::min(b->lo, d->lo);
    e->hi = std::max(b->hi, d->hi);
    break;
  case OConcat:
    e->kz = (a->kz << b->w) | b->kz;
    e->ko = (a->ko << b->w) | b->ko;
    e->lo = (a->lo << b->w) + b->lo;
    e->hi = (a->hi << b->w) + b->hi;
    break;
  case OExtract: {
    unsigned lo = (unsigned)e->c;
    e->kz = (a->kz >> lo) & M;
    e->ko = (a->ko >> lo) & M;
    if (lo + e->w == a->w || (a->hi >> lo) <= M) {
      e->lo = a->lo >> lo;
      e->hi = a->hi >> lo;
    }
    break;
  }
  case OZExt:
    e->kz = a->kz | (M & ~mask_of(a->w));
    e->ko = a->ko;
    e->lo = a->lo;
    e->hi = a->hi;
    break;
  case OSExt: {
    u128 s = (u128)1 << (a->w - 1);
    u128 ext = M & ~mask_of(a->w);
    e->kz = a->kz & ~s;
    e->ko = a->ko & ~s;
    if (a->kz & s) {
      e->kz |= s | ext;
      e->lo = a->lo;
      e->hi = a->hi;
    } else if (a->ko & s)
      e->ko |= s | ext;
    break;
  }
  default:
    break;
  }
  // combine
  u128 unk = M & ~(e->kz | e->ko);
  e->lo = std::max(e->lo, e->ko);
  e->hi = std::min(e->hi, e->ko | unk);
  unsigned hb = hibit(e->hi);
  if (hb < e->w)
    e->kz |= M & ~mask_of(hb);
}

Expr *e_const(unsigned w, u128 v) { return mk(OConst, w, nullptr, nullptr, nullptr, v & mask_of(w)); }

Expr *e_var(unsigned idx, std::string const &name, unsigned w)
{
  std::string key = std::to_string(idx) + "|" + name + "|" + std::to_string(w);
  auto it = g_varmap.find(key);
  unsigned id;
  if (it == g_varmap.end()) {
    id = g_vars.size();
    g_vars.push_back({name, w});
    g_varmap[key] = id;
  } else
    id = it->second;
  return mk(OVar, w, nullptr, nullptr, nullptr, id);
}

u128 fold_bin(Op op, u128 a, u128 b, unsigned w)
{
  u128 M = mask_of(w);
  auto D = [](u128 x) {
    uint64_t u = (uint64_t)x;
    double d;
    memcpy(&d, &u, 8);
    return d;
  };
  auto U = [](double d) {
    uint64_t u;
    memcpy(&u, &d, 8);
    return (u128)u;
  };
  switch (op) {
  case OFNeg: return a ^ ((u128)1 << 63);
  case OFAdd: return U(D(a) + D(b));
  case OFSub: return U(D(a) - D(b));
  case OFMul: return U(D(a) * D(b));
  case OFDiv: return U(D(a) / D(b));
  case OFEq: return D(a) == D(b);
  case OFLt: return D(a) < D(b);
  case OFLe: return D(a) <= D(b);
  case OUToF: return U((double)(uint64_t)a);
  case OSToF: return U((double)(int64_t)a);
  case OFToU: return (uint64_t)D(a);
  case OFToS: return (uint64_t)(int64_t)D(a);
  case OAdd: return (a + b) & M;
  case OSub: return (a - b) & M;
  case OMul: return (a * b) & M;
  case OUDiv: return b ? a / b : M;
  case OURem: return b ? a % b : a;
  case OSDiv: {
    __int128 x = sext_of(a, w), y = sext_of(b, w);
    if (y == 0)
      return x < 0 ? 1 : M;
    if (y == -1)
      return (u128)(0 - (u128)x) & M;
    return (u128)(x / y) & M;
  }
  case OSRem: {
    __int128 x = sext_of(a, w), y = sext_of(b, w);
    if (y == 0)
      return a;
    if (y == -1)
      return 0;
    return (u128)(x % y) & M;
  }
  case OAnd: return a & b;
  case OOr: return a | b;
  case OXor: return a ^ b;
  case OShl: return b >= w ? 0 : (a << (unsigned)b) & M;
  case OLShr: return b >= w ? 0 : a >> (unsigned)b;
  case OAShr: {
    __int128 x = sext_of(a, w);
    unsigned s = b >= w ? w - 1 : (unsigned)b;
    return (u128)(x >> s) & M;
  }
  case OEq: return a == b;
  case OUlt: return a < b;
  case OUle: return a <= b;
  case OSlt: return sext_of(a, w) < sext_of(b, w);
  case OSle: return sext_of(a, w) <= sext_of(b, w);
  default: return 0;
  }
}

Expr *e_not(Expr *e)
{
  if (e->is_const())
    return e_const(e->w, ~e->c);
  if (e->w == 1) {
    // push negation through comparisons
    if (e->op == OUlt)
      return e_bin(OUle, e->k[1], e->k[0]);
    if (e->op == OUle)
      return e_bin(OUlt, e->k[1], e->k[0]);
    if (e->op == OSlt)
      return e_bin(OSle, e->k[1], e->k[0]);
    if (e->op == OSle)
      return e_bin(OSlt, e->k[1], e->k[0]);
  }
  return e_bin(OXor, e, e_const(e->w, ~(u128)0));
}

static bool is_not(Expr *e) { return e->op == OXor && e->k[1]->is_const() && e->k[1]->c == mask_of(e->w); }

Expr *e_zext(Expr *e, unsigned w)
{
  if (e->w == w)
    return e;
  if (e->is_const())
    return e_const(w, e->c);
  if (e->op == OZExt)
    return e_zext(e->k[0], w);
  if (e->op == OIte && e->k[1]->is_const() && e->k[2]->is_const())
    return e_ite(e->k[0], e_const(w, e->k[1]->c), e_const(w, e->k[2]->c));
  return mk(OZExt, w, e);
}
Expr *e_sext(Expr *e, unsigned w)
{
  if (e->w == w)
    return e;
  if (e->is_const())
    return e_const(w, (u128)sext_of(e->c, e->w));
  if (e->op == OSExt)
    return e_sext(e->k[0], w);
  if (e->op == OZExt)
    return e_zext(e->k[0], w);
  if (e->w == 1)
    return e_ite(e, e_const(w, ~(u128)0), e_const(w, 0));
  if (e->op == OIte && e->k[1]->is_const() && e->k[2]->is_const())
    return e_ite(e->k[0], e_sext(e->k[1], w), e_sext(e->k[2], w));
  if (e->kz >> (e->w - 1) & 1)
    return e_zext(e, w);
  return mk(OSExt, w, e);
}

static Expr *bit_at(Expr *W, Expr *x);
static bool has_shl1(Expr *e, int depth);
Expr *e_extract(Expr *e, unsigned lo, unsigned w)
{
  if (lo == 0 && w == e->w)
    return e;
  if (e->is_const())
    return e_const(w, e->c >> lo);
  u128 M = mask_of(w);
  u128 kk = ((e->kz | e->ko) >> lo) & M;
  if (kk == M)
    return e_const(w, (e->ko >> lo) & M);
  switch (e->op) {
  case OFFix:
    if (lo == 63)
      return e_bin(OSlt, e->k[0], e_const(64, 0));
    break;
  case OExtract:
    return e_extract(e->k[0], lo + (unsigned)e->c, w);
  case OConcat: {
    unsigned lw = e->k[1]->w;
    if (lo >= lw)
      return e_extract(e->k[0], lo - lw, w);
    if (lo + w <= lw)
      return e_extract(e->k[1], lo, w);
    return e_concat(e_extract(e->k[0], 0, lo + w - lw), e_extract(e->k[1], lo, lw - lo));
  }
  case OZExt: {
    unsigned iw = e->k[0]->w;
    if (lo >= iw)
      return e_const(w, 0);
    if (lo + w <= iw)
      return e_extract(e->k[0], lo, w);
    return e_zext(e_extract(e->k[0], lo, iw - lo), w);
  }
  case OSExt: {
    unsigned iw = e->k[0]->w;
    if (lo + w <= iw)
      return e_extract(e->k[0], lo, w);
    if (lo < iw)
      return e_sext(e_extract(e->k[0], lo, iw - lo), w);
    return e_sext(e_extract(e->k[0], iw - 1, 1), w);
  }
  case OIte:
    if (e->k[1]->is_const() || e->k[2]->is_const())
      return e_ite(e->k[0], e_extract(e->k[1], lo, w), e_extract(e->k[2], lo, w));
    break;
  case OAnd:
  case OOr:
  case OXor:
    return e_bin(e->op, e_extract(e->k[0], lo, w), e_extract(e->k[1], lo, w));
  case OShl:
    if (w == 1 && e->k[0]->is_const()) { // one bit of (constant << x)
      Expr *r = e_false();
      for (unsigned i = 0; i <= lo; i++)
        if (e->k[0]->c >> i & 1)
          r = e_bin(OOr, r, e_eq(e->k[1], e_const(e->w, lo - i)));
      return r;
    }
    if (e->k[1]->is_const() && e->k[1]->c < e->w) {
      unsigned s = (unsigned)e->k[1]->c;
      if (lo >= s)
        return e_extract(e->k[0], lo - s, w);
      if (lo + w <= s)
        return e_const(w, 0);
      return e_concat(e_extract(e->k[0], 0, lo + w - s), e_const(s - lo, 0));
    }
    break;
  case OLShr:
    if (w == 1 && lo == 0 && !e->k[1]->is_const() && e->w <= 64 && e->k[1]->hi < e->w && (e->k[0]->is_const() || has_shl1(e->k[0], 8)))
      return bit_at(e->k[0], e->k[1]);
    if (e->k[1]->is_const() && e->k[1]->c < e->w) {
      unsigned s = (unsigned)e->k[1]->c;
      if (lo + s + w <= e->w)
        return e_extract(e->k[0], lo + s, w);
      if (lo + s >= e->w)
        return e_const(w, 0);
      return e_zext(e_extract(e->k[0], lo + s, e->w - lo - s), w);
    }
    break;
  case OAdd:
  case OSub:
  case OMul:
    if (lo == 0 && (e->k[0]->op == OZExt || e->k[0]->op == OSExt || e->k[0]->op == OConcat || e->k[0]->is_const() || e->k[1]->is_const()))
      return e_bin(e->op, e_extract(e->k[0], 0, w), e_extract(e->k[1], 0, w));
    break;
  default:
    break;
  }
  return mk(OExtract, w, e, nullptr, nullptr, lo);
}

// Merge two adjacent pieces into one expression without a concatenation at the top, or return null.
static Expr *join(Expr *hi, Expr *lo, int depth)
{
  unsigned w = hi->w + lo->w;
  if (hi->is_const() && lo->is_const())
    return e_const(w, (hi->c << lo->w) | lo->c);
  if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return e_extract(hi->k[0], (unsigned)lo->c, w);
  if (depth <= 0 || hi->op != lo->op)
    return nullptr;
  if (hi->op == OAnd || hi->op == OOr || hi->op == OXor) {
    for (int x = 0; x < 2; x++) {
      Expr *a = join(hi->k[0], lo->k[x], depth - 1);
      if (!a)
        continue;
      Expr *b = join(hi->k[1], lo->k[1 - x], depth - 1);
      if (b)
        return e_bin(hi->op, a, b);
    }
    return nullptr;
  }
  if (hi->op == OIte && hi->k[0] == lo->k[0]) {
    Expr *a = join(hi->k[1], lo->k[1], depth - 1);
    if (!a)
      return nullptr;
    Expr *b = join(hi->k[2], lo->k[2], depth - 1);
    return b ? e_ite(hi->k[0], a, b) : nullptr;
  }
  return nullptr;
}
// Bit x of word W as a one bit expression (x < w known): multiplexer over the individual bits.
static Expr *bit_at(Expr *W, Expr *x)
{
  unsigned n = W->w;
  if (W->op == OShl && W->k[0]->is_const() && W->k[0]->c == 1 && W->k[1]->hi < n) {
    unsigned m = std::max(x->w, W->k[1]->w);
    return e_eq(e_zext(W->k[1], m), e_zext(x, m));
  }
  if (W->op == OOr || W->op == OAnd || W->op == OXor)
    return e_bin(W->op, bit_at(W->k[0], x), bit_at(W->k[1], x));
  if (W->op == OIte)
    return e_ite(W->k[0], bit_at(W->k[1], x), bit_at(W->k[2], x));
  if (W->is_const() && (W->c == 0 || W->c == mask_of(n)))
    return e_const(1, W->c & 1);
  std::vector<Expr *> l(n);
  for (unsigned i = 0; i < n; i++)
    l[i] = e_extract(W, i, 1);
  for (unsigned b = 0; n > 1; b++) {
    Expr *s = e_extract(x, b, 1);
    unsigned m = (n + 1) / 2;
    for (unsigned i = 0; i < m; i++)
      l[i] = 2 * i + 1 < n ? e_ite(s, l[2 * i + 1], l[2 * i]) : l[2 * i];
    n = m;
  }
  return l[0];
}
static bool has_shl1(Expr *e, int depth)
{
  if (e->op == OShl && e->k[0]->is_const() && !e->k[1]->is_const())
    return true;
  if (depth <= 0)
    return false;
  if (e->op == OOr || e->op == OAnd || e->op == OXor || e->op == OIte || e->op == OConcat || e->op == OExtract)
    for (auto k : e->k)
      if (k && has_shl1(k, depth - 1))
        return true;
  return false;
}

Expr *e_concat(Expr *hi, Expr *lo)
{
  unsigned w = hi->w + lo->w;
  if (hi->is_const() && lo->is_const())
    return e_const(w, (hi->c << lo->w) | lo->c);
  if (hi->is_const() && hi->c == 0)
    return e_zext(lo, w);
  // adjacent extracts
  if (hi->op == OExtract && lo->op == OExtract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
    return e_extract(hi->k[0], (unsigned)lo->c, w);
  if (hi->op == OExtract && hi->k[0] == lo && hi->c == lo->w)
    return e_extract(lo, 0, w); // cannot happen (width) but harmless
  if (hi->op == OConcat) // right associate: (a.b).lo -> a.(b.lo)
    return e_concat(hi->k[0], e_concat(hi->k[1], lo));
  if (lo->op == OConcat && hi->op == OExtract && lo->k[0]->op == OExtract && lo->k[0]->k[0] == hi->k[0] &&
      hi->c == lo->k[0]->c + lo->k[0]->w)
    return e_concat(e_extract(hi->k[0], (unsigned)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  if (lo->op == OConcat && hi->is_const() && lo->k[0]->is_const())
    return e_concat(e_concat(hi, lo->k[0]), lo->k[1]);
  if (auto j = join(hi, lo, 6))
    return j;
  if (lo->op == OConcat)
    if (auto j = join(hi, lo->k[0], 6))
      return e_concat(j, lo->k[1]);
  if (hi->op == OIte && lo->op == OIte && hi->k[0] == lo->k[0])
    return e_ite(hi->k[0], e_concat(hi->k[1], lo->k[1]), e_concat(hi->k[2], lo->k[2]));
  // zext'd lo: top bits of lo are zero const -> const in the middle; leave.
  // sign extension pieces / zext pieces: Extract(zext) folded earlier.
  if (hi->op == OIte && hi->k[1]->is_const() && hi->k[2]->is_const() && lo->is_const())
    return e_ite(hi->k[0], e_concat(hi->k[1], lo), e_concat(hi->k[2], lo));
  return mk(OConcat, w, hi, lo);
}

Expr *e_ite(Expr *c, Expr *a, Expr *b)
{
  if (a == b)
    return a;
  if (c->is_const())
    return c->c ? a : b;
  if (is_not(c))
    return e_ite(c->k[0], b, a);
  if (a->w == 1) {
    if (a->is_const() && b->is_const())
      return a->c ? c : e_not(c);
    if (a->is_const())
      return a->c ? e_bin(OOr, c, b) : e_bin(OAnd, e_not(c), b);
    if (b->is_const())
      return b->c ? e_bin(OOr, e_not(c), a) : e_bin(OAnd, c, a);
  }
  if (a->op == OIte && a->k[0] == c)
    a = a->k[1];
  if (b->op == OIte && b->k[0] == c)
    b = b->k[2];
  if (a == b)
    return a;
  // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
  if (b->op == OIte && b->k[1] == a)
    return e_ite(e_bin(OOr, c, b->k[0]), a, b->k[2]);
  return mk(OIte, a->w, c, a, b);
}

static Expr *simp_cmp_const_ite(Op op, Expr *a, Expr *b)
{
  // push comparison into ite with constant leaves
  if (a->op == OIte && b->is_const() && (a->k[1]->is_const() || a->k[2]->is_const()))
    return e_ite(a->k[0], e_bin(op, a->k[1], b), e_bin(op, a->k[2], b));
  if (b->op == OIte && a->is_const() && (b->k[1]->is_const() || b->k[2]->is_const()))
    return e_ite(b->k[0], e_bin(op, a, b->k[1]), e_bin(op, a, b->k[2]));
  return nullptr;
}

// Linear normal form modulo 2^w: sum of coefficient * atom + constant. Used to decide / shrink equalities of sums.
struct Lin {
  unsigned w;
  std::vector<std::pair<Expr *, u128>> t;
  u128 c       = 0;
  unsigned left = 120; // work limit
  unsigned seen = 0;   // number of atom occurrences
  void atom(Expr *e, u128 k)
  {
    ++seen;
    for (auto &p : t)
      if (p.first == e) {
        p.second += k;
        return;
      }
    t.push_back({e, k});
  }
  // invariant: k is a multiple of 2^(w - e->w), so only e modulo 2^(e->w) matters
  bool add(Expr *e, u128 k)
  {
    if (!left)
      return false;
    --left;
    switch (e->op) {
    case OConst: c += k * e->c; return true;
    case OAdd: return add(e->k[0], k) && add(e->k[1], k);
    case OSub: return add(e->k[0], k) && add(e->k[1], 0 - k);
    case OMul:
      if (e->k[1]->is_const())
        return add(e->k[0], k * e->k[1]->c);
      break;
    case OShl:
      if (e->k[1]->is_const() && e->k[1]->c < e->w)
        return add(e->k[0], k << (unsigned)e->k[1]->c);
      break;
    case OXor:
      if (e->k[1]->is_const() && e->k[1]->c == mask_of(e->w)) {
        c -= k;
        return add(e->k[0], 0 - k);
      }
      break;
    case OConcat:
      if (e->k[1]->is_const()) {
        c += k * e->k[1]->c;
        return add(e->k[0], k << e->k[1]->w);
      }
      break;
    case OExtract:
      if (e->c == 0 && e->k[0]->w <= w)
        return add(e->k[0], k);
      break;
    default: break;
    }
    atom(e, k);
    return true;
  }
};
static bool lin_op(Expr *e)
{
  return e->op == OAdd || e->op == OSub || (e->op == OMul && e->k[1]->is_const()) || (e->op == OConcat && e->k[1]->is_const());
}
static Expr *simp_eq_linear(Expr *a, Expr *b)
{
  static bool busy = false;
  unsigned w = a->w;
  if (busy || w < 2 || w > 64 || !(lin_op(a) || lin_op(b)))
    return nullptr;
  Lin l;
  l.w = w;
  if (!l.add(a, 1) || !l.add(b, 0 - (u128)1))
    return nullptr;
  u128 M = mask_of(w);
  std::vector<std::pair<Expr *, u128>> t;
  for (auto &p : l.t)
    if (p.second & M)
      t.push_back({p.first, p.second & M});
  u128 c = l.c & M;
  if (t.empty())
    return e_const(1, c == 0);
  if (t.size() == l.seen)
    return nullptr; // nothing cancelled
  busy    = true;
  Expr *L = nullptr, *R = nullptr;
  for (auto &p : t) {
    Expr *x = p.first->w == w ? p.first : p.first->w < w ? e_zext(p.first, w) : e_extract(p.first, 0, w);
    bool ng = p.second > (M >> 1);
    u128 k  = ng ? (0 - p.second) & M : p.second;
    x       = e_bin(OMul, x, e_const(w, k));
    Expr *&side = ng ? R : L;
    side        = side ? e_bin(OAdd, side, x) : x;
  }
  if (!L)
    L = e_const(w, 0);
  if (!R)
    R = e_const(w, 0);
  L       = e_bin(OAdd, L, e_const(w, c));
  Expr *r = e_bin(OEq, L, R);
  busy    = false;
  return r;
}

// x / c == y / c and x * c == y * c: different integers below 2^51 stay apart after rounding.
static Expr *fp_scaled_eq(Expr *a, Expr *b);
static Expr *fp_zero(Expr *a);
Expr *e_bin(Op op, Expr *a, Expr *b)
{
  unsigned w = a->w;
  u128 M = mask_of(w);
  bool cmp = op >= OEq && op <= OSle;
  if (a->is_const() && b->is_const())
    return e_const(cmp ? 1 : w, fold_bin(op, a->c, b->c, w));
  // commutative: constant to the right, otherwise order by id
  if (op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq) {
    if (a->is_const() || (!b->is_const() && a->id > b->id))
      std::swap(a, b);
  }
  if (op == OEq && b->is_const() && b->c == 0 && w == 64 && a->fp)
    if (a->op == OFMul || a->op == OFDiv)
      if (Expr *r = fp_zero(a)) // an underflow to negative zero is excluded
        return r;
  if (op == OEq && a->op == b->op && (a->op == OFDiv || a->op == OFMul)) {
    Expr *r = fp_scaled_eq(a, b);
    if (r)
      return r;
  }
  if (op == OEq && a->op == OFFix && (b->op == OFFix || b->is_const())) {
    // neither is a negative zero: equal bits mean equal values
    Expr *z, *n;
    if (e_fix_class(b, &z, &n))
      return e_fbin(OFEq, a, b);
  }
  switch (op) {
  case OSub:
    if (a == b)
      return e_const(w, 0);
    if (b->is_const())
      return e_bin(OAdd, a, e_const(w, 0 - b->c));
    // c1 - (c2 - x)
    if (a->is_const() && b->op == OSub && b->k[0]->is_const())
      return e_bin(OAdd, b->k[1], e_const(w, a->c - b->k[0]->c));
    // x - (x with its low bits cleared)
    {
      Expr *t = b->op == OZExt ? b->k[0] : b;
      if (t->op == OConcat && t->k[1]->is_const() && t->k[1]->c == 0) {
        unsigned n = t->k[1]->w;
        Expr *h    = t->k[0]->op == OZExt ? t->k[0]->k[0] : t->k[0];
        Expr *v    = h->op == OExtract ? h->k[0] : nullptr;
        if (v && h->c == n && (v == a || (a->op == OZExt && v == a->k[0])) && (v->kz >> (n + h->w) | ~mask_of(v->w - n - h->w)) == ~(u128)0)
          return e_zext(e_extract(v, 0, n), w);
      }
    }
    // (x + c) - x
    if (a->op == OAdd && a->k[0] == b)
      return a->k[1];
    if (a->op == OAdd && a->k[1] == b)
      return a->k[0];
    break;
  case OAdd:
    if (b->is_const()) {
      if (b->c == 0)
        return a;
      if (a->op == OAdd && a->k[1]->is_const())
        return e_bin(OAdd, a->k[0], e_const(w, a->k[1]->c + b->c));
      if (a->op == OSub && a->k[0]->is_const())
        return e_bin(OSub, e_const(w, a->k[0]->c + b->c), a->k[1]);
      if (a->op == OIte && a->k[1]->is_const() && a->k[2]->is_const())
        return e_ite(a->k[0], e_bin(OAdd, a->k[1], b), e_bin(OAdd, a->k[2], b));
    } else {
      if (a->op == OAdd && a->k[1]->is_const())
        return e_bin(OAdd, e_bin(OAdd, a->k[0], b), a->k[1]);
      if (b->op == OAdd && b->k[1]->is_const())
        return e_bin(OAdd, e_bin(OAdd, a, b->k[0]), b->k[1]);
      if (a->op == OSub && a->k[1] == b)
        return a->k[0];
      if (b->op == OSub && b->k[1] == a)
        return b->k[0];
    }
    break;
  case OMul:
    if (b->is_const()) {
      if (b->c == 0)
        return b;
      if (b->c == 1)
        return a;
      if ((b->c & (b->c - 1)) == 0)
        return e_bin(OShl, a, e_const(w, hibit(b->c) - 1));
      if (a->op == OMul && a->k[1]->is_const())
        return e_bin(OMul, a->k[0], e_const(w, a->k[1]->c * b->c));
    }
    break;
  case OUDiv:
    if (b->is_const() && b->c == 1)
      return a;
    if (b->is_const() && b->c && (b->c & (b->c - 1)) == 0)
      return e_bin(OLShr, a, e_const(w, hibit(b->c) - 1));
    if (b->lo > 0 && a->hi < b->lo)
      return e_const(w, 0);
    // (x / c1) / c2 == x / (c1 * c2), which is 0 when the product does not fit
    if (a->op == OUDiv && b->is_const() && a->k[1]->is_const() && a->k[1]->c && b->c) {
      if (hibit(a->k[1]->c) + hibit(b->c) <= 127) {
        u128 pr = a->k[1]->c * b->c;
        return pr > mask_of(w) ? e_const(w, 0) : e_bin(OUDiv, a->k[0], e_const(w, pr));
      }
    }
    // narrow
    if (a->op == OZExt && b->is_const() && b->c && b->c <= mask_of(a->k[0]->w))
      return e_zext(e_bin(OUDiv, a->k[0], e_const(a->k[0]->w, b->c)), w);
    break;
  case OURem:
    if (b->is_const() && b->c == 1)
      return e_const(w, 0);
    if (b->is_const() && b->c && (b->c & (b->c - 1)) == 0)
      return e_bin(OAnd, a, e_const(w, b->c - 1));
    if (b->lo > 0 && a->hi < b->lo)
      return a;
    if (a->op == OZExt && b->is_const() && b->c && b->c <= mask_of(a->k[0]->w))
      return e_zext(e_bin(OURem, a->k[0], e_const(a->k[0]->w, b->c)), w);
    break;
  case OAnd:
    if (a == b)
      return a;
    if (b->is_const()) {
      if (b->c == 0)
        return b;
      if ((b->c | a->kz) == M)
        return a; // mask only removes known zero bits
      if ((b->c & ~a->kz) == 0)
        return e_const(w, 0);
      if (a->op == OAnd && a->k[1]->is_const())
        return e_bin(OAnd, a->k[0], e_const(w, a->k[1]->c & b->c));
      // low mask -> zext(extract)
      if ((b->c & (b->c + 1)) == 0)
        return e_zext(e_extract(a, 0, hibit(b->c)), w);
      // high-aligned contiguous mask -> concat(extract, 0)
      {
        u128 inv = ~b->c & M;
        if ((inv & (inv + 1)) == 0) {
          unsigned s = hibit(inv);
          return e_concat(e_extract(a, s, w - s), e_const(s, 0));
        }
      }
      if (a->op == OZExt && (b->c & ~mask_of(a->k[0]->w)) == 0)
        return e_zext(e_bin(OAnd, a->k[0], e_const(a->k[0]->w, b->c)), w);
      if (a->op == OConcat)
        return e_concat(e_bin(OAnd, a->k[0], e_const(a->k[0]->w, b->c >> a->k[1]->w)),
                        e_bin(OAnd, a->k[1], e_const(a->k[1]->w, b->c)));
    }
    if (w == 1) {
      if (is_not(a) && a->k[0] == b)
        return e_false();
      if (is_not(b) && b->k[0] == a)
        return e_false();
      if (a->op == OAnd && (a->k[0] == b || a->k[1] == b))
        return a;
      if (b->op == OAnd && (b->k[0] == a || b->k[1] == a))
        return b;
    }
    break;
  case OOr:
    if (a == b)
      return a;
    if (b->is_const()) {
      if (b->c == 0)
        return a;
      if (b->c == M)
        return b;
      if (a->op == OOr && a->k[1]->is_const())
        return e_bin(OOr, a->k[0], e_const(w, a->k[1]->c | b->c));
    }
    if (w == 1) {
      if (is_not(a) && a->k[0] == b)
        return e_true();
      if (is_not(b) && b->k[0] == a)
        return e_true();
      if (a->op == OOr && (a->k[0] == b || a->k[1] == b))
        return a;
      if (b->op == OOr && (b->k[0] == a || b->k[1] == a))
        return b;
    } else {
      // disjoint pieces: x (high) | y (low) where known zeros complement -> concat
      for (int sw = 0; sw < 2; sw++) {
        Expr *h = sw ? b : a, *l = sw ? a : b;
        unsigned n = hibit(l->hi);
        unsigned kzl = hibit(M & ~l->kz);
        if (kzl < n)
          n = kzl;
        if (n == 0)
          return h;
        if (n < w && (h->kz & mask_of(n)) == mask_of(n))
          return e_concat(e_extract(h, n, w - n), e_extract(l, 0, n));
      }
    }
    break;
  case OXor:
    if (a == b)
      return e_const(w, 0);
    if (b->is_const()) {
      if (b->c == 0)
        return a;
      if (a->op == OXor && a->k[1]->is_const())
        return e_bin(OXor, a->k[0], e_const(w, a->k[1]->c ^ b->c));
      if (w == 1 && b->c == 1 && (a->op == OUlt || a->op == OUle || a->op == OSlt || a->op == OSle))
        return e_not(a);
      if (a->op == OIte && a->k[1]->is_const() && a->k[2]->is_const())
        return e_ite(a->k[0], e_bin(OXor, a->k[1], b), e_bin(OXor, a->k[2], b));
    }
    break;
  case OShl:
  case OLShr:
    if (b->is_const()) {
      if (b->c == 0)
        return a;
      if (b->c >= w)
        return e_const(w, 0);
      unsigned s = (unsigned)b->c;
      if (op == OShl)
        return e_concat(e_extract(a, 0, w - s), e_const(s, 0));
      return e_zext(e_extract(a, s, w - s), w);
    }
    if (a->is_const() && a->c == 0)
      return a;
    break;
  case OAShr:
    if (b->is_const()) {
      if (b->c == 0)
        return a;
      unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
      return e_sext(e_extract(a, s, w - s), w);
    }
    break;
  case OEq:
    if (a == b)
      return e_true();
    if (a->hi < b->lo || b->hi < a->lo || (a->ko & b->kz) || (a->kz & b->ko))
      return e_false();
    if (w == 1) {
      if (b->is_const())
        return b->c ? a : e_not(a);
    }
    if (auto r = simp_eq_linear(a, b))
      return r;
    if (b->is_const() && b->c == 0 && a->op == OAnd && w <= 64)
      for (int x = 0; x < 2; x++) {
        Expr *m = a->k[x], *W = a->k[1 - x];
        if (m->op == OShl && m->k[0]->is_const() && m->k[0]->c == 1 && m->k[1]->hi < w && (W->is_const() || has_shl1(W, 8)))
          return e_not(bit_at(W, m->k[1]));
      }
    if (auto r = simp_cmp_const_ite(op, a, b))
      return r;
    if (b->is_const() && b->c == 0) {
      if (a->op == OUDiv && a->k[1]->is_const() && a->k[1]->c)
        return e_bin(OUlt, a->k[0], a->k[1]);
      if (a->op == OLShr && a->k[1]->is_const() && a->k[1]->c < w)
        return e_bin(OUlt, a->k[0], e_const(w, (u128)1 << (unsigned)a->k[1]->c));
    }
    if (b->is_const()) {
      if (a->op == OZExt)
        return b->c > mask_of(a->k[0]->w) ? e_false() : e_eq(a->k[0], e_const(a->k[0]->w, b->c));
      if (a->op == OSExt) {
        Expr *n = e_const(a->k[0]->w, b->c);
        return ((u128)sext_of(n->c, n->w) & M) == b->c ? e_eq(a->k[0], n) : e_false();
      }
      if (a->op == OAdd && a->k[1]->is_const())
        return e_eq(a->k[0], e_const(w, b->c - a->k[1]->c));
      if (a->op == OXor && a->k[1]->is_const())
        return e_eq(a->k[0], e_const(w, b->c ^ a->k[1]->c));
      if (a->op == OConcat)
        return e_bin(OAnd, e_eq(a->k[0], e_const(a->k[0]->w, b->c >> a->k[1]->w)), e_eq(a->k[1], e_const(a->k[1]->w, b->c)));
      if (a->op == OSub && b->c == 0)
        return e_eq(a->k[0], a->k[1]);
      if (a->op == OSub && a->k[0]->is_const())
        return e_eq(a->k[1], e_const(w, a->k[0]->c - b->c));
    } else {
      if (a->op == OZExt && b->op == OZExt) {
        unsigned m = std::max(a->k[0]->w, b->k[0]->w);
        return e_eq(e_zext(a->k[0], m), e_zext(b->k[0], m));
      }
      if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w)
        return e_eq(a->k[0], b->k[0]);
      if (a->op == OConcat && b->op == OConcat && a->k[1]->w == b->k[1]->w)
        return e_bin(OAnd, e_eq(a->k[0], b->k[0]), e_eq(a->k[1], b->k[1]));
      if (a->op == OAdd && a->k[1]->is_const()) {
        if (a->k[0] == b)
          return e_const(1, a->k[1]->c == 0);
        if (b->op == OAdd && b->k[1]->is_const())
          return e_eq(a->k[0], e_bin(OAdd, b->k[0], e_const(w, b->k[1]->c - a->k[1]->c)));
      }
      if (b->op == OAdd && b->k[1]->is_const() && b->k[0] == a)
        return e_const(1, b->k[1]->c == 0);
    }
    break;
  case OUlt:
    if (a == b)
      return e_false();
    if (a->hi < b->lo)
      return e_true();
    if (a->lo >= b->hi)
      return e_false();
    if (w == 1)
      return e_bin(OAnd, e_not(a), b);
    if (auto r = simp_cmp_const_ite(op, a, b))
      return r;
    // x / c < k == x < c * k; k < x / c == c * (k + 1) <= x
    if (a->op == OUDiv && b->is_const() && a->k[1]->is_const() && a->k[1]->c && hibit(a->k[1]->c) + hibit(b->c) <= 127) {
      u128 pr = a->k[1]->c * b->c;
      return pr > mask_of(w) ? e_true() : e_bin(OUlt, a->k[0], e_const(w, pr));
    }
    if (b->op == OUDiv && a->is_const() && b->k[1]->is_const() && b->k[1]->c && hibit(b->k[1]->c) + hibit(a->c) + 1 <= 127) {
      u128 pr = b->k[1]->c * (a->c + 1);
      return pr > mask_of(w) ? e_false() : e_bin(OUle, e_const(w, pr), b->k[0]);
    }
    if (b->is_const() && b->c == 1)
      return e_eq(a, e_const(w, 0));
    if (a->op == OZExt && b->is_const() && b->c <= mask_of(a->k[0]->w))
      return e_bin(OUlt, a->k[0], e_const(a->k[0]->w, b->c));
    if (b->op == OZExt && a->is_const() && a->c <= mask_of(b->k[0]->w))
      return e_bin(OUlt, e_const(b->k[0]->w, a->c), b->k[0]);
    if (a->op == OZExt && b->op == OZExt) {
      unsigned m = std::max(a->k[0]->w, b->k[0]->w);
      if (m < w)
        return e_bin(OUlt, e_zext(a->k[0], m), e_zext(b->k[0], m));
    }
    break;
  case OUle:
    if (a == b)
      return e_true();
    if (a->hi <= b->lo)
      return e_true();
    if (a->lo > b->hi)
      return e_false();
    if (w == 1)
      return e_bin(OOr, e_not(a), b);
    if (auto r = simp_cmp_const_ite(op, a, b))
      return r;
    // x / c <= k == x < c * (k + 1); k <= x / c == c * k <= x
    if (a->op == OUDiv && b->is_const() && a->k[1]->is_const() && a->k[1]->c && hibit(a->k[1]->c) + hibit(b->c) + 1 <= 127) {
      u128 pr = a->k[1]->c * (b->c + 1);
      return pr > mask_of(w) ? e_true() : e_bin(OUlt, a->k[0], e_const(w, pr));
    }
    if (b->op == OUDiv && a->is_const() && b->k[1]->is_const() && b->k[1]->c && hibit(b->k[1]->c) + hibit(a->c) <= 127) {
      u128 pr = b->k[1]->c * a->c;
      return pr > mask_of(w) ? e_false() : e_bin(OUle, e_const(w, pr), b->k[0]);
    }
    if (b->is_const() && b->c == 0)
      return e_eq(a, b);
    if (a->is_const() && a->c == 1)
      return e_not(e_eq(b, e_const(w, 0)));
    if (a->op == OZExt && b->is_const() && b->c <= mask_of(a->k[0]->w))
      return e_bin(OUle, a->k[0], e_const(a->k[0]->w, b->c));
    if (b->op == OZExt && a->is_const() && a->c <= mask_of(b->k[0]->w))
      return e_bin(OUle, e_const(b->k[0]->w, a->c), b->k[0]);
    if (a->op == OZExt && b->op == OZExt) {
      unsigned m = std::max(a->k[0]->w, b->k[0]->w);
      if (m < w)
        return e_bin(OUle, e_zext(a->k[0], m), e_zext(b->k[0], m));
    }
    break;
  case OSlt:
  case OSle: {
    if (a == b)
      return e_const(1, op == OSle);
    u128 s = (u128)1 << (w - 1);
    bool az = a->kz & s, ao = a->ko & s, bz = b->kz & s, bo = b->ko & s;
    if (ao && bz)
      return e_true();
    if (az && bo)
      return e_false();
    if ((az && bz) || (ao && bo))
      return e_bin(op == OSlt ? OUlt : OUle, a, b);
    if (auto r = simp_cmp_const_ite(op, a, b))
      return r;
    if (a->op == OSExt && b->is_const()) {
      unsigned iw = a->k[0]->w;
      Expr *n = e_const(iw, b->c);
      if (((u128)sext_of(n->c, iw) & M) == b->c)
        return e_bin(op, a->k[0], n);
    }
    if (b->op == OSExt && a->is_const()) {
      unsigned iw = b->k[0]->w;
      Expr *n = e_const(iw, a->c);
      if (((u128)sext_of(n->c, iw) & M) == a->c)
        return e_bin(op, n, b->k[0]);
    }
    if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w)
      return e_bin(op, a->k[0], b->k[0]);
    // x < 0  -> sign bit
    if (op == OSlt && b->is_const() && b->c == 0)
      return e_extract(a, w - 1, 1);
    if (op == OSle && a->is_const() && a->c == 0)
      return e_not(e_extract(b, w - 1, 1));
    break;
  }
  default:
    break;
  }
  Expr *r = mk(op, cmp ? 1 : w, a, b);
  if (!cmp && r->lo == r->hi)
    return e_const(w, r->lo);
  return r;
}

// ---- floating point ----
struct SR {
  __int128 lo, hi;
};
static SR srange(Expr *e, int depth = 16)
{
  SR full{-((__int128)1 << (e->w - 1)), ((__int128)1 << (e->w - 1)) - 1};
  if (e->is_const()) {
    __int128 v = sext_of(e->c, e->w);
    return {v, v};
  }
  SR r = full;
  if (e->kz >> (e->w - 1) & 1)
    r = {(__int128)e->lo, (__int128)e->hi};
  if (depth <= 0)
    return r;
  SR x = full;
  auto in = [&](__int128 lo, __int128 hi) {
    if (lo >= full.lo && hi <= full.hi)
      x = {lo, hi};
  };
  switch (e->op) {
  case OSExt: x = srange(e->k[0], depth - 1); break;
  case OIte: {
    SR a = srange(e->k[1], depth - 1), b = srange(e->k[2], depth - 1);
    x = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
    break;
  }
  case OAdd: {
    SR a = srange(e->k[0], depth - 1), b = srange(e->k[1], depth - 1);
    in(a.lo + b.lo, a.hi + b.hi);
    break;
  }
  case OSub: {
    SR a = srange(e->k[0], depth - 1), b = srange(e->k[1], depth - 1);
    in(a.lo - b.hi, a.hi - b.lo);
    break;
  }
  case OShl:
    if (e->k[1]->is_const() && e->k[1]->c < 63) {
      SR a = srange(e->k[0], depth - 1);
      unsigned s = (unsigned)e->k[1]->c;
      if (e->w <= 64)
        in(a.lo * ((__int128)1 << s), a.hi * ((__int128)1 << s));
    }
    break;
  case OMul: {
    SR a = srange(e->k[0], depth - 1), b = srange(e->k[1], depth - 1);
    if (e->w <= 64) {
      auto big = [](SR q) { return std::max(q.lo < 0 ? -q.lo : q.lo, q.hi < 0 ? -q.hi : q.hi); };
      if (hibit((u128)big(a)) + hibit((u128)big(b)) < 120) {
        __int128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        in(*std::min_element(p, p + 4), *std::max_element(p, p + 4));
      }
    }
    break;
  }
  default: break;
  }
  r.lo = std::max(r.lo, x.lo);
  r.hi = std::min(r.hi, x.hi);
  return r;
}

static const __int128 FIX_MAX = (__int128)1 << 53;
static const int FIX_BIAS = 2048;

struct Fix {
  Expr *k;
  int e;
  SR r;
};

// e * 2^n without overflow
static bool fix_shift(Fix &f, int n)
{
  if (n == 0)
    return true;
  if (n < 0 || n > 61)
    return false;
  __int128 lim = (__int128)1 << 62;
  if (f.r.lo * ((__int128)1 << n) < -lim || f.r.hi * ((__int128)1 << n) > lim)
    return false;
  f.k = e_bin(OShl, f.k, e_const(64, n));
  f.r = {f.r.lo * ((__int128)1 << n), f.r.hi * ((__int128)1 << n)};
  f.e -= n;
  return true;
}
static bool fix_align(Fix &a, Fix &b)
{
  if (a.r.lo == 0 && a.r.hi == 0)
    a.e = b.e;
  if (b.r.lo == 0 && b.r.hi == 0)
    b.e = a.e;
  return a.e > b.e ? fix_shift(a, a.e - b.e) : fix_shift(b, b.e - a.e);
}
static bool as_fix(Expr *x, Fix &f, int depth = 8)
{
  if (x->w != 64)
    return false;
  if (x->is_const()) {
    uint64_t u = (uint64_t)x->c;
    double d;
    memcpy(&d, &u, 8);
    if (!std::isfinite(d) || (d == 0 && std::signbit(d)))
      return false;
    int e     = 0;
    int64_t m = (int64_t)std::ldexp(std::frexp(d, &e), 53);
    e -= 53;
    if (m == 0)
      e = 0;
    while (m && !(m & 1)) {
      m /= 2;
      e++;
    }
    if (e < -1000 || e > 900)
      return false;
    f = {e_const(64, (uint64_t)m), e, {m, m}};
    return true;
  }
  if (x->op == OFFix) {
    f = {x->k[0], (int)x->c - FIX_BIAS, srange(x->k[0])};
    f.r.lo = std::max(f.r.lo, -FIX_MAX);
    f.r.hi = std::min(f.r.hi, FIX_MAX);
    return true;
  }
  if (x->op == OIte && depth > 0) {
    Fix a, b;
    if (!as_fix(x->k[1], a, depth - 1) || !as_fix(x->k[2], b, depth - 1) || !fix_align(a, b))
      return false;
    f = {e_ite(x->k[0], a.k, b.k), a.e, {std::min(a.r.lo, b.r.lo), std::max(a.r.hi, b.r.hi)}};
    return true;
  }
  return false;
}
static Expr *mk_fix(Expr *k, int e)
{
  if (k->is_const()) {
    double d = std::ldexp((double)(int64_t)k->c, e);
    uint64_t u;
    memcpy(&u, &d, 8);
    return e_const(64, u);
  }
  return mk(OFFix, 64, k, nullptr, nullptr, (u128)(e + FIX_BIAS));
}

// A value computed from one exact double by operations with constants, each of them monotone: the product or quotient with a
// positive constant, the sum or difference with a constant. Comparing it with a constant is comparing the integer with a threshold.
struct Chain {
  Fix base;
  std::vector<std::pair<Op, double>> ops; // innermost last
  bool scale = true; // only products and quotients
  double eval(__int128 k, bool *normal = nullptr) const
  {
    double d = std::ldexp((double)(int64_t)k, base.e);
    for (size_t i = ops.size(); i--;) {
      d = ops[i].first == OFMul ? d * ops[i].second : ops[i].first == OFDiv ? d / ops[i].second : ops[i].first == OFAdd ? d + ops[i].second : d - ops[i].second;
      if (normal && !std::isnormal(d))
        *normal = false;
    }
    return d;
  }
};
static bool as_chain(Expr *e, Chain &c)
{
  for (int n = 0; n < 64; n++) {
    Op op = e->op;
    if (op != OFMul && op != OFDiv && op != OFAdd && op != OFSub)
      break;
    int i = (op == OFMul || op == OFAdd) && e->k[0]->is_const() ? 1 : 0;
    if (!e->k[1 - i]->is_const())
      return false;
    uint64_t u = (uint64_t)e->k[1 - i]->c;
    double v;
    memcpy(&v, &u, 8);
    if (!std::isfinite(v))
      return false;
    if (op == OFMul || op == OFDiv) {
      if (!(v > 1e-300))
        return false;
    } else
      c.scale = false;
    c.ops.push_back({op, v});
    e = e->k[i];
  }
  return !c.ops.empty() && !e->is_const() && as_fix(e, c.base) && c.base.r.lo >= -FIX_MAX && c.base.r.hi <= FIX_MAX;
}
// chain < d, or chain <= d
static Expr *chain_below(Chain const &c, double d, bool eq)
{
  __int128 lo = c.base.r.lo, hi = c.base.r.hi + 1; // the first k that is not below
  while (lo < hi) {
    __int128 mid = lo + (hi - lo) / 2;
    double v     = c.eval(mid);
    if (eq ? v <= d : v < d)
      lo = mid + 1;
    else
      hi = mid;
  }
  if (lo > c.base.r.hi)
    return e_true();
  return e_bin(OSlt, c.base.k, e_const(64, (u128)(int64_t)lo));
}
static Expr *chain_cmp(Op op, Expr *a, Expr *b)
{
  bool swap = a->is_const();
  if (swap)
    std::swap(a, b);
  Chain c;
  if (!b->is_const() || !as_chain(a, c))
    return nullptr;
  uint64_t u = (uint64_t)b->c;
  double d;
  memcpy(&d, &u, 8);
  if (std::isnan(d))
    return e_false();
  if (op == OFEq)
    return e_bin(OAnd, chain_below(c, d, true), e_not(chain_below(c, d, false)));
  if (!swap)
    return chain_below(c, d, op == OFLe);
  return e_not(chain_below(c, d, op == OFLt));
}
// Two chains of the same products and quotients are equal for the same integer only: different integers with that few bits stay
// apart after the roundings. Zeros are positive on both sides.
static Expr *fp_scaled_eq(Expr *a, Expr *b)
{
  Chain p, q;
  if (!as_chain(a, p) || !as_chain(b, q) || !p.scale || p.ops != q.ops || p.ops.size() > 16 || !fix_align(p.base, q.base))
    return nullptr;
  __int128 lim = (__int128)1 << 46, m = std::max(p.base.r.hi, q.base.r.hi), n = std::min(p.base.r.lo, q.base.r.lo);
  bool normal  = true;
  if (m > lim || n < -lim)
    return nullptr;
  p.eval(1, &normal);
  p.eval(m > 0 ? m : 1, &normal);
  p.eval(n < 0 ? n : 1, &normal);
  if (!normal)
    return nullptr;
  return e_bin(OEq, p.base.k, q.base.k);
}
// The bits are those of positive zero.
static Expr *fp_zero(Expr *a)
{
  Chain c;
  if (!as_chain(a, c) || !c.scale || c.eval(-1) == 0)
    return nullptr;
  return chain_cmp(OFEq, a, e_const(64, 0));
}
Expr *e_fbin(Op op, Expr *a, Expr *b)
{
  bool cmp = op == OFEq || op == OFLt || op == OFLe;
  // comparison of a negated value
  if (cmp && a->op == OFNeg && (b->op == OFNeg || b->is_const()))
    return e_fbin(op, e_fneg(b), a->k[0]);
  if (cmp && b->op == OFNeg && a->is_const())
    return e_fbin(op, b->k[0], e_fneg(a));
  if (cmp)
    if (Expr *r = chain_cmp(op, a, b))
      return r;
  if (op == OFEq && a->op == b->op && (a->op == OFDiv || a->op == OFMul)) {
    Expr *r = fp_scaled_eq(a, b);
    if (r)
      return r;
  }
  if (a->is_const() && b->is_const())
    return e_const(cmp ? 1 : 64, fold_bin(op, a->c, b->c, 64));
  Fix x, y;
  if (as_fix(a, x) && as_fix(b, y)) {
    if (op == OFAdd || op == OFSub) {
      if (fix_align(x, y)) {
        Expr *k = e_bin(op == OFAdd ? OAdd : OSub, x.k, y.k);
        SR r    = srange(k);
        if (r.lo >= -FIX_MAX && r.hi <= FIX_MAX)
          return mk_fix(k, x.e);
      }
    } else if (op == OFMul) {
      bool xz = x.r.lo <= 0 && x.r.hi >= 0, yz = y.r.lo <= 0 && y.r.hi >= 0;
      bool mz = (xz && y.r.lo < 0) || (yz && x.r.lo < 0); // the product may be a negative zero
      if (!mz && x.e + y.e >= -1000 && x.e + y.e <= 900) {
        Expr *k = e_bin(OMul, x.k, y.k);
        SR r    = srange(k);
        if (r.lo >= -FIX_MAX && r.hi <= FIX_MAX)
          return mk_fix(k, x.e + y.e);
      }
    } else if (op == OFDiv) {
      if (y.k->is_const() && y.k->c == 1 && x.e - y.e >= -1000 && x.e - y.e <= 900)
        return mk_fix(x.k, x.e - y.e);
    } else if (fix_align(x, y)) {
      return e_bin(op == OFEq ? OEq : op == OFLt ? OSlt : OSle, x.k, y.k);
    }
  }
  return mk(op, cmp ? 1 : 64, a, b);
}
Expr *e_tofp(Expr *a, bool sgn)
{
  a    = sgn ? e_sext(a, 64) : e_zext(a, 64);
  if (a->is_const())
    return e_const(64, fold_bin(sgn ? OSToF : OUToF, a->c, 0, 64));
  SR r = srange(a);
  if (r.lo >= -FIX_MAX && r.hi <= FIX_MAX && (sgn || (a->kz >> 63 & 1)))
    return mk_fix(a, 0);
  return mk(sgn ? OSToF : OUToF, 64, a);
}
Expr *e_fptoi(Expr *a, unsigned w, bool sgn)
{
  Fix f;
  if (!a->is_const() && as_fix(a, f)) {
    Expr *k = nullptr;
    if (f.e >= 0) {
      if (fix_shift(f, f.e))
        k = f.k;
    } else {
      Expr *s = e_const(64, std::min(63, -f.e));
      k       = f.r.lo >= 0 ? e_bin(OLShr, f.k, s) : nullptr;
      if (!k) {
        Expr *n = e_bin(OSub, e_const(64, 0), f.k), *z = e_const(64, 0);
        k = e_ite(e_bin(OSlt, f.k, z), e_bin(OSub, z, e_bin(OLShr, n, s)), e_bin(OLShr, f.k, s));
      }
    }
    if (k)
      return e_extract(k, 0, w);
  }
  Expr *r = a->is_const() ? e_const(64, fold_bin(sgn ? OFToS : OFToU, a->c, 0, 64)) : mk(sgn ? OFToS : OFToU, 64, a);
  return e_extract(r, 0, w);
}
Expr *e_fneg(Expr *a)
{
  Fix f;
  if (!a->is_const() && as_fix(a, f) && (f.r.lo > 0 || f.r.hi < 0))
    return mk_fix(e_bin(OSub, e_const(64, 0), f.k), f.e);
  if (a->is_const())
    return e_const(64, fold_bin(OFNeg, a->c, 0, 64));
  if (a->op == OFNeg)
    return a->k[0];
  return mk(OFNeg, 64, a);
}
Expr *e_fabs(Expr *a)
{
  Fix f;
  if (!a->is_const() && as_fix(a, f)) {
    if (f.r.lo >= 0)
      return a;
    return mk_fix(e_ite(e_bin(OSlt, f.k, e_const(64, 0)), e_bin(OSub, e_const(64, 0), f.k), f.k), f.e);
  }
  Chain c;
  if (!a->is_const() && as_chain(a, c) && c.scale && c.base.r.lo >= 0)
    return a;
  return e_bin(OAnd, a, e_const(64, ~((u128)1 << 63)));
}
bool e_fix_class(Expr *a, Expr **zero, Expr **neg)
{
  Fix f;
  if (!as_fix(a, f))
    return false;
  *zero = e_eq(f.k, e_const(64, 0));
  *neg  = e_bin(OSlt, f.k, e_const(64, 0));
  return true;
}

Expr *e_rebuild(Expr *e, Expr *a, Expr *b, Expr *d)
{
  switch (e->op) {
  case OConst:
  case OVar: return e;
  case OIte: return e_ite(a, b, d);
  case OConcat: return e_concat(a, b);
  case OExtract: return e_extract(a, (unsigned)e->c, e->w);
  case OZExt: return e_zext(a, e->w);
  case OSExt: return e_sext(a, e->w);
  case OFFix: return mk_fix(a, (int)e->c - FIX_BIAS);
  case OFAdd:
  case OFSub:
  case OFMul:
  case OFDiv:
  case OFEq:
  case OFLt:
  case OFLe: return e_fbin(e->op, a, b);
  case OUToF: return e_tofp(a, false);
  case OSToF: return e_tofp(a, true);
  case OFToU: return e_fptoi(a, 64, false);
  case OFToS: return e_fptoi(a, 64, true);
  case OFNeg: return e_fneg(a);
  default: return e_bin(e->op, a, b);
  }
}
void e_eval_new() { ++g_stamp; }

u128 e_eval(Expr *e, Model const &m)
{
  if (e->op == OConst)
    return e->c;
  if (e->ev_stamp == g_stamp)
    return e->ev_val;
  u128 r = 0;
  switch (e->op) {
  case OVar:
    r = e->c < m.size() ? m[(size_t)e->c] & mask_of(e->w) : 0;
    break;
  case OIte:
    r = e_eval(e->k[0], m) ? e_eval(e->k[1], m) : e_eval(e->k[2], m);
    break;
  case OConcat:
    r = (e_eval(e->k[0], m) << e->k[1]->w) | e_eval(e->k[1], m);
    break;
  case OExtract:
    r = (e_eval(e->k[0], m) >> (unsigned)e->c) & mask_of(e->w);
    break;
  case OZExt:
    r = e_eval(e->k[0], m);
    break;
  case OSExt:
    r = (u128)sext_of(e_eval(e->k[0], m), e->k[0]->w) & mask_of(e->w);
    break;
  case OFFix: {
    double d = std::ldexp((double)(int64_t)e_eval(e->k[0], m), (int)e->c - 2048);
    uint64_t u;
    memcpy(&u, &d, 8);
    r = u;
    break;
  }
  case OUToF:
  case OSToF:
  case OFToU:
  case OFToS:
  case OFNeg:
    r = fold_bin(e->op, e_eval(e->k[0], m), 0, 64);
    break;
  default:
    r = fold_bin(e->op, e_eval(e->k[0], m), e_eval(e->k[1], m), e->k[0]->w);
  }
  e->ev_stamp = g_stamp;
  e->ev_val = r;
  return r;
}

static const char *opn[] = {"const", "var", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl",
                            "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext",
                            "fix", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "utof", "stof", "ftou", "ftos", "fneg"};
std::string e_str(Expr *e, int depth)
{
  char b[64];
  if (e->op == OConst) {
    snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->c, e->w);
    return b;
  }
  if (e->op == OVar)
    return g_vars[(size_t)e->c].name + "#" + std::to_string((unsigned)e->c) + ":" + std::to_string(e->w);
  if (!depth)
    return "..";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == OExtract) {
    snprintf(b, sizeof b, "[%u+%u]", (unsigned)e->c, e->w);
    s += b;
  }
  for (auto k : e->k)
    if (k)
      s += " " + e_str(k, depth - 1);
  return s + ")";
}
