// Hash-consed bit-vector expression DAG used by the symbolic executor.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

typedef unsigned __int128 u128;

enum Op : uint8_t {
  OConst, OVar,
  OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem,
  OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle,
  OIte, OConcat, OExtract, OZExt, OSExt,
  // IEEE double precision, round to nearest even, on 64 bit patterns
  OFFix, // the double k[0] * 2^(c - 2048), k[0] signed with |k[0]| <= 2^53, never a negative zero
  OFAdd, OFSub, OFMul, OFDiv, OFEq, OFLt, OFLe, OUToF, OSToF, OFToU, OFToS, OFNeg
};

// Interned set of variable ids.
struct VarSet {
  std::vector<uint64_t> bits;
  uint64_t hash;
};
VarSet const *vs_empty();
VarSet const *vs_single(unsigned v);
VarSet const *vs_union(VarSet const *a, VarSet const *b);
inline bool vs_overlap(std::vector<uint64_t> const &a, VarSet const *b)
{
  size_t n = a.size() < b->bits.size() ? a.size() : b->bits.size();
  for (size_t i = 0; i < n; i++)
    if (a[i] & b->bits[i])
      return true;
  return false;
}
inline void vs_add(std::vector<uint64_t> &a, VarSet const *b)
{
  if (a.size() < b->bits.size())
    a.resize(b->bits.size(), 0);
  for (size_t i = 0; i < b->bits.size(); i++)
    a[i] |= b->bits[i];
}

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  Expr *k[3];
  u128 c; // Const: value; Var: var id; Extract: low bit
  VarSet const *vars;
  u128 kz, ko;       // known zero / known one bits
  u128 lo, hi;       // unsigned range
  bool fp;                // contains a floating point operation: decided by Z3
  bool is_const() const { return op == OConst; }
  // evaluation cache
  uint32_t ev_stamp = 0;
  u128 ev_val = 0;
};

inline u128 mask_of(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
inline __int128 sext_of(u128 v, unsigned w)
{
  if (w >= 128)
    return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  v &= mask_of(w);
  return (__int128)((v ^ s) - s);
}

struct VarInfo {
  std::string name;
  unsigned w;
};
extern std::vector<VarInfo> g_vars;
extern uint64_t g_nexprs;

Expr *e_const(unsigned w, u128 v);
Expr *e_var(unsigned idx, std::string const &name, unsigned w); // interned by (idx,name,w)
Expr *e_bin(Op op, Expr *a, Expr *b);
Expr *e_ite(Expr *c, Expr *a, Expr *b);
Expr *e_concat(Expr *hi, Expr *lo);
Expr *e_extract(Expr *e, unsigned lo, unsigned w);
Expr *e_zext(Expr *e, unsigned w);
Expr *e_sext(Expr *e, unsigned w);
Expr *e_not(Expr *e); // bitwise
inline Expr *e_true() { return e_const(1, 1); }
inline Expr *e_false() { return e_const(1, 0); }
inline Expr *e_eq(Expr *a, Expr *b) { return e_bin(OEq, a, b); }

typedef std::vector<u128> Model; // by var id; missing -> 0
u128 e_eval(Expr *e, Model const &m);
void e_eval_new(); // invalidate the evaluation cache (model changed)
std::string e_str(Expr *e, int depth = 6);
// floating point: the operations on doubles, kept as exact integer arithmetic where that is possible
Expr *e_fbin(Op op, Expr *a, Expr *b);  // OFAdd .. OFLe
Expr *e_tofp(Expr *a, bool sgn);         // any width up to 64
Expr *e_fptoi(Expr *a, unsigned w, bool sgn);
Expr *e_fneg(Expr *a);
Expr *e_fabs(Expr *a);
Expr *e_rebuild(Expr *e, Expr *a, Expr *b, Expr *d); // e with other operands
bool e_fix_class(Expr *a, Expr **zero, Expr **neg); // a is finite and no negative zero or subnormal: its class
u128 fold_bin(Op op, u128 a, u128 b, unsigned w);
