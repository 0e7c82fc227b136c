// Self test of the expression simplifier, its interval/known-bits analysis and both decision procedures.
#include "expr.h"
#include "solver.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <random>
int main(int argc, char **argv)
{
  int N = argc > 1 ? atoi(argv[1]) : 20000;
  std::mt19937_64 R(argc > 2 ? atoi(argv[2]) : 1);
  int bad = 0;
  unsigned widths[] = {1, 3, 8, 16, 32, 64, 128};
  for (int it = 0; it < N && bad < 5; it++) {
    Model m;
    std::vector<std::pair<Expr *, u128>> nodes;
    for (int i = 0; i < 4; i++) {
      unsigned w = widths[R() % 6];
      Expr *v    = e_var(i, "v", w);
      size_t id  = (size_t)v->c;
      if (m.size() <= id)
        m.resize(id + 1, 0);
      u128 val = R() & mask_of(w);
      if (R() % 3 == 0) val = R() % 3;
      val &= mask_of(w);
      m[id]    = val;
      nodes.push_back({v, val});
    }
    for (int i = 0; i < 3; i++) {
      unsigned w = widths[R() % 7];
      u128 val   = (((u128)R() << 64) | R()) & mask_of(w);
      if (R() % 2) val = R() % 70;
      if (R() % 4 == 0) val = mask_of(R() % (w + 1));
      val &= mask_of(w);
      nodes.push_back({e_const(w, val), val});
    }
    e_eval_new();
    for (int s = 0; s < 25; s++) {
      auto a = nodes[R() % nodes.size()];
      int k  = R() % 14;
      Expr *e = nullptr;
      u128 v  = 0;
      if (k < 8) {
        // find same width
        std::vector<std::pair<Expr *, u128>> same;
        for (auto &n : nodes)
          if (n.first->w == a.first->w)
            same.push_back(n);
        auto b = same[R() % same.size()];
        Op op  = (Op)(OAdd + R() % (OSle - OAdd + 1));
        e      = e_bin(op, a.first, b.first);
        v      = fold_bin(op, a.second, b.second, a.first->w);
      } else if (k == 8) {
        unsigned lo = R() % a.first->w, w = 1 + R() % (a.first->w - lo);
        e = e_extract(a.first, lo, w);
        v = (a.second >> lo) & mask_of(w);
      } else if (k == 9) {
        auto b = nodes[R() % nodes.size()];
        if (a.first->w + b.first->w > 128) continue;
        e = e_concat(a.first, b.first);
        v = (a.second << b.first->w) | b.second;
      } else if (k == 10 || k == 11) {
        unsigned w = a.first->w + R() % (129 - a.first->w);
        e = k == 10 ? e_zext(a.first, w) : e_sext(a.first, w);
        v = k == 10 ? a.second : (u128)sext_of(a.second, a.first->w) & mask_of(w);
      } else if (k == 12) {
        std::vector<std::pair<Expr *, u128>> c1, same;
        for (auto &n : nodes) {
          if (n.first->w == 1) c1.push_back(n);
          if (n.first->w == a.first->w) same.push_back(n);
        }
        if (c1.empty()) continue;
        auto c = c1[R() % c1.size()];
        auto b = same[R() % same.size()];
        e = e_ite(c.first, a.first, b.first);
        v = c.second ? a.second : b.second;
      } else {
        e = e_not(a.first);
        v = ~a.second & mask_of(a.first->w);
      }
      u128 got = e_eval(e, m);
      bool rng = (v & e->kz) == 0 && (~v & e->ko & mask_of(e->w)) == 0 && e->lo <= v && v <= e->hi;
      if (got != v || !rng) {
        printf("MISMATCH it=%d k=%d got=%llx want=%llx w=%u rng=%d expr=%s\n", it, k, (unsigned long long)got, (unsigned long long)v, e->w, rng, e_str(e).c_str());
        bad++;
        break;
      }
      nodes.push_back({e, v});
    }
    // solver: constraints e_i == value must be SAT; contradiction with the evaluated value must be decided the same by Z3
    if (it % 20 == 0) {
      std::vector<Expr *> cs;
      bool heavy = false;
      for (size_t i = nodes.size() > 6 ? nodes.size() - 6 : 0; i < nodes.size(); i++) {
        if (nodes[i].first->w > 32) heavy = true;
        cs.push_back(e_eq(nodes[i].first, e_const(nodes[i].first->w, nodes[i].second)));
      }
      if (heavy) continue;
      Model mm;
      if (solve(cs, mm) != SAT) { printf("SOLVE: expected SAT\n"); bad++; }
      mm.resize(g_vars.size(), 0);
      e_eval_new();
      for (auto c : cs) if (!e_eval(c, mm)) { printf("MODEL does not satisfy\n"); bad++; break; }
      if (!cs.empty()) cs.back() = e_not(cs.back());
      Model m2;
      Res a = solve(cs, m2), b = z3_solve(cs, nullptr, 5000);
      if (b != UNKNOWN && a != b) { printf("DISAGREE %d %d\n", a, b); bad++; }
    }
  }
  // floating point: the exact integer form of doubles against the machine, and Z3's reading of the rest
  auto D = [](u128 x) { uint64_t u = (uint64_t)x; double d; memcpy(&d, &u, 8); return d; };
  auto U = [](double d) { uint64_t u; memcpy(&u, &d, 8); return (u128)u; };
  for (int it = 0; it < N / 4 && bad < 5; it++) {
    Model m;
    std::vector<std::pair<Expr *, u128>> nodes; // doubles
    std::vector<std::pair<Expr *, u128>> bools;
    for (int i = 0; i < 3; i++) {
      unsigned w = i == 2 ? 64 : i ? 32 : 12;
      Expr *v    = e_var(10 + i, "f", w);
      if (m.size() <= (size_t)v->c) m.resize((size_t)v->c + 1, 0);
      u128 val = R() % 3 == 0 ? R() % 4 : R();
      m[(size_t)v->c] = val & mask_of(w);
      bool sg = R() % 2;
      val &= mask_of(w);
      u128 x = sg ? (u128)sext_of(val, w) & mask_of(64) : val;
      nodes.push_back({e_tofp(v, sg), fold_bin(sg ? OSToF : OUToF, x, 0, 64)});
    }
    double cs[] = {0.5, 100, 256, 0.1, 1.0 / 1024, 3, -2, 0, 1e18, -0.75};
    for (int i = 0; i < 3; i++) { double d = cs[R() % 10]; nodes.push_back({e_const(64, U(d)), U(d)}); }
    e_eval_new();
    for (int s = 0; s < 12; s++) {
      auto a = nodes[R() % nodes.size()], b = nodes[R() % nodes.size()];
      int k = R() % 10;
      Expr *e; u128 v;
      if (k < 4) { Op op = (Op)(OFAdd + k); e = e_fbin(op, a.first, b.first); v = fold_bin(op, a.second, b.second, 64); }
      else if (k < 7) { Op op = (Op)(OFEq + k - 4); e = e_fbin(op, a.first, b.first); v = fold_bin(op, a.second, b.second, 64); bools.push_back({e, v}); }
      else if (k == 7) { e = R() % 2 ? e_fneg(a.first) : e_fabs(a.first); if (e == a.first && R() % 2) continue; double x = D(a.second);
        double g = D(e_eval(e, m)); v = g == -x && e != a.first ? U(g) : U(x < 0 || std::signbit(x) ? -x : x); 
        if (U(g) != U(-x) && U(g) != U(std::fabs(x))) { printf("FP neg/abs\n"); bad++; break; } }
      else if (k == 8) { bool sg = R() % 2; double x = D(a.second); if (std::isnan(x) || (sg ? std::fabs(x) >= 9e18 : (x <= -1 || x >= 1.8e19))) continue;
        e = e_tofp(e_fptoi(a.first, 64, sg), sg); v = U(sg ? (double)(int64_t)x : (double)(uint64_t)x); }
      else { if (bools.empty()) continue; auto c = bools[R() % bools.size()]; e = e_ite(c.first, a.first, b.first); v = c.second ? a.second : b.second; }
      u128 got = e_eval(e, m);
      if (got != v && !(e->w == 64 && std::isnan(D(got)) && std::isnan(D(v)))) { printf("FP MISMATCH k=%d got=%a want=%a %s\n", k, D(got), D(v), e_str(e).c_str()); bad++; break; }
      if (e->w == 64 && !std::isnan(D(v))) nodes.push_back({e, v});
    }
    if (it % 200 == 0) {
      auto &l = nodes.back();
      std::vector<Expr *> q;
      for (int i = 0; i < 3; i++) { Expr *x = e_var(10 + i, "f", i == 2 ? 64 : i ? 32 : 12); q.push_back(e_eq(x, e_const(x->w, m[(size_t)x->c]))); }
      q.push_back(e_eq(l.first, e_const(64, l.second)));
      Model mm;
      Res a = z3_solve(q, &mm, 10000);
      q.back() = e_not(q.back());
      Res b = q.back()->is_const() && !q.back()->c ? UNSAT : z3_solve(q, nullptr, 10000);
      if (a == UNSAT || b == SAT) { printf("FP Z3 differs %d %d: %s = %a\n", a, b, e_str(l.first).c_str(), D(l.second)); bad++; }
    }
  }
  printf("selftest: %d iterations, %d failures, %llu exprs, %llu queries\n", N, bad, (unsigned long long)g_nexprs, (unsigned long long)g_ss.queries);
  return bad != 0;
}
