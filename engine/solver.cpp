// Z3 back end: QF_BV queries over sliced path conditions.
#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <unordered_map>
#include <set>
#include <deque>
#include <cstdio>
#include <cstdlib>

SolverStats SS;
unsigned g_solverTimeoutMs = 20000;
const char *g_dumpDir = nullptr;
unsigned g_dumpMax = 0;
static Z3_context ctx = nullptr;
static Z3_solver sol = nullptr;
static unsigned gen = 0, uses = 0;

static void fresh() {
  if (ctx) Z3_del_context(ctx);
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, sol);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_solverTimeoutMs);
  Z3_solver_set_params(ctx, sol, p);
  gen++; uses = 0;
}
static Z3_ast bvn(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, bvn(1, 1), bvn(0, 1)); }

static Z3_ast tr(Expr *e) {
  if (e->z3gen == gen && e->z3) return (Z3_ast)e->z3;
  Z3_ast r, a = 0, b = 0, c = 0;
  if (e->nk > 0) a = tr(e->k[0]);
  if (e->nk > 1) b = tr(e->k[1]);
  if (e->nk > 2) c = tr(e->k[2]);
  switch (e->op) {
  case E_CONST: r = bvn(e->val, e->w); break;
  case E_SYM: { char nm[32]; snprintf(nm, sizeof nm, "s%u", (unsigned)e->val);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)); break; }
  case E_CONCAT: r = Z3_mk_concat(ctx, a, b); break;
  case E_EXTRACT: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, a); break;
  case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, a); break;
  case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, a); break;
  case E_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
  case E_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
  case E_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
  case E_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
  case E_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
  case E_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
  case E_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
  case E_AND: r = Z3_mk_bvand(ctx, a, b); break;
  case E_OR: r = Z3_mk_bvor(ctx, a, b); break;
  case E_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
  case E_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
  case E_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
  case E_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
  case E_EQ: r = b2v(Z3_mk_eq(ctx, a, b)); break;
  case E_ULT: r = b2v(Z3_mk_bvult(ctx, a, b)); break;
  case E_ULE: r = b2v(Z3_mk_bvule(ctx, a, b)); break;
  case E_SLT: r = b2v(Z3_mk_bvslt(ctx, a, b)); break;
  case E_SLE: r = b2v(Z3_mk_bvsle(ctx, a, b)); break;
  case E_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, bvn(1, 1)), b, c); break;
  default: abort();
  }
  e->z3 = r; e->z3gen = gen;
  return r;
}

struct CacheEnt { Res r; PModel m; };
struct KeyHash { size_t operator()(const std::vector<uint32_t> &v) const {
  size_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> cache;
static std::deque<Model> recent;

Res solveQuery(std::vector<Expr *> slice, Expr *q, PModel &out) {
  out.clear();
  slice.push_back(q);
  std::sort(slice.begin(), slice.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  std::vector<uint32_t> key;
  for (Expr *e : slice) key.push_back(e->id);
  auto it = cache.find(key);
  if (it != cache.end()) { SS.cacheHits++; out = it->second.m; return it->second.r; }
  std::set<uint32_t> vars;
  for (Expr *e : slice) for (uint32_t v : *e->vars) vars.insert(v);
  auto ok = [&](const Model &m) {
    for (uint32_t v : vars) { bool k; SymInfo si = symInfo(v, k); uint64_t x = v < m.size() ? m[v] : si.lo; if (x < si.lo || x > si.hi) return false; }
    uint64_t st = newStamp();
    for (Expr *e : slice) if (evalExpr(e, m, st) != 1) return false;
    return true; };
  auto extractM = [&](const Model &m) {
    for (uint32_t v : vars) { bool k; SymInfo si = symInfo(v, k); out.push_back({v, v < m.size() ? m[v] : si.lo}); } };
  for (auto &m : recent) if (ok(m)) {
    SS.modelHits++; extractM(m);
    cache[key] = {SAT, out};
    return SAT;
  }
  if (!ctx || uses > 4000) fresh();
  uses++;
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_reset(ctx, sol);
  Z3_ast one = bvn(1, 1);
  std::set<uint32_t> done;
  for (Expr *e : slice) {
    Z3_ast z = tr(e);
    Z3_solver_assert(ctx, sol, Z3_mk_eq(ctx, z, one));
  }
  for (uint32_t v : vars) {
    bool k; SymInfo si = symInfo(v, k);
    char nm[32]; snprintf(nm, sizeof nm, "s%u", v);
    Z3_ast x = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, si.w));
    if (si.lo > 0) Z3_solver_assert(ctx, sol, Z3_mk_bvuge(ctx, x, bvn(si.lo, si.w)));
    if (si.hi < maskw(si.w)) Z3_solver_assert(ctx, sol, Z3_mk_bvule(ctx, x, bvn(si.hi, si.w)));
  }
  Z3_lbool r = Z3_solver_check(ctx, sol);
  SS.queries++;
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (g_dumpDir && SS.dumped < g_dumpMax && (SS.queries % 17) == 1 && res != UNKNOWN) {
    char fn[512]; snprintf(fn, sizeof fn, "%s/q%llu_%d.%s.smt2", g_dumpDir, (unsigned long long)SS.queries, rand() % 100000, res == SAT ? "sat" : "unsat");
    FILE *f = fopen(fn, "w");
    if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, sol)); fclose(f); SS.dumped++; }
  }
  if (res == SAT) {
    SS.sat++;
    Z3_model m = Z3_solver_get_model(ctx, sol);
    Z3_model_inc_ref(ctx, m);
    Model mm(vars.empty() ? 1 : *vars.rbegin() + 1, 0);
    for (uint32_t v : vars) {
      bool k; SymInfo si = symInfo(v, k);
      char nm[32]; snprintf(nm, sizeof nm, "s%u", v);
      Z3_ast x = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, si.w)), val;
      uint64_t u = si.lo;
      if (Z3_model_eval(ctx, m, x, true, &val)) Z3_get_numeral_uint64(ctx, val, (uint64_t *)&u);
      if (u < si.lo) u = si.lo;
      mm[v] = u;
    }
    Z3_model_dec_ref(ctx, m);
    if (!ok(mm)) { SS.badModels++; res = UNKNOWN; }
    else {
      extractM(mm);
      recent.push_front(mm);
      if (recent.size() > 12) recent.pop_back();
    }
  } else if (res == UNSAT) SS.unsat++;
  if (res == UNKNOWN) SS.unknown++;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SS.time += dt; if (dt > SS.maxTime) SS.maxTime = dt;
  if (cache.size() > 400000) cache.clear();
  cache[key] = {res, out};
  return res;
}
