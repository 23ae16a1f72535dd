#include "solver.h"
#include <chrono>
#include <cstring>
#include <unistd.h>
#include <unordered_map>

SolverStats g_ss;
unsigned g_z3_timeout_ms = 60000;
std::string g_dumpdir; int g_dumpevery = 1;
static Z3_context ctx;
static Z3_solver slv;

void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  {
    const char* names[] = {"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"};
    Z3_tactic t = nullptr;
    for (const char* n : names) { Z3_tactic x = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, x); t = t ? Z3_tactic_and_then(ctx, t, x) : x; Z3_tactic_inc_ref(ctx, t); }
    slv = Z3_mk_solver_from_tactic(ctx, t);
  }
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_z3_timeout_ms);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 0);
  Z3_solver_set_params(ctx, slv, p);
}

static Z3_ast tr(E e);
static Z3_ast bv(E e) { // as bit-vector even for width 1
  Z3_ast t = tr(e);
  if (e->w == 1) return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
  return t;
}
static Z3_ast tr(E e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr;
  bool b1 = e->w == 1;
  switch (e->op) {
    case E_CONST: r = b1 ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->w)); break;
    case E_VAR: { std::string n = g_vars[e->val].name + "!" + std::to_string(e->val); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), b1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); break; }
    case E_ADD: r = b1 ? Z3_mk_xor(ctx, tr(e->a), tr(e->b)) : Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case E_SUB: r = b1 ? Z3_mk_xor(ctx, tr(e->a), tr(e->b)) : Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case E_MUL: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = b1 ? Z3_mk_and(ctx, 2, x) : Z3_mk_bvmul(ctx, x[0], x[1]); break; }
    case E_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
    case E_AND: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = b1 ? Z3_mk_and(ctx, 2, x) : Z3_mk_bvand(ctx, x[0], x[1]); break; }
    case E_OR: { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = b1 ? Z3_mk_or(ctx, 2, x) : Z3_mk_bvor(ctx, x[0], x[1]); break; }
    case E_XOR: r = b1 ? Z3_mk_xor(ctx, tr(e->a), tr(e->b)) : Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case E_NOT: r = b1 ? Z3_mk_not(ctx, tr(e->a)) : Z3_mk_bvnot(ctx, tr(e->a)); break;
    case E_EQ: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case E_ITE: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(ctx, e->lo8 + e->w - 1, e->lo8, bv(e->a)); if (b1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
    case E_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    case E_UMULO: r = Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, bv(e->a), bv(e->b), false)); break;
    case E_SMULO: { unsigned w = e->a->w; Z3_ast m = Z3_mk_bvmul(ctx, Z3_mk_sign_ext(ctx, w, bv(e->a)), Z3_mk_sign_ext(ctx, w, bv(e->b))); r = Z3_mk_not(ctx, Z3_mk_eq(ctx, m, Z3_mk_sign_ext(ctx, w, Z3_mk_extract(ctx, w - 1, 0, m)))); break; }
  }
  if (b1 && (e->op == E_UDIV || e->op == E_SDIV || e->op == E_UREM || e->op == E_SREM || e->op == E_SHL || e->op == E_LSHR || e->op == E_ASHR))
    r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
  e->z = r;
  return r;
}

struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct CacheEnt { Res r; Assign a; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;
static std::vector<Model> recent; static size_t recentPos = 0;

static bool intersects(const VarSet& a, const std::vector<bool>& in) { for (auto v : a) if (v < in.size() && in[v]) return true; return false; }

Res solve(const std::vector<E>& cons, E q, Assign& asg) {
  g_ss.queries++;
  if (isC(q)) { if (!q->val) return UNSAT; }
  // independence slice
  std::vector<bool> in(g_vars.size(), false);
  for (auto v : *q->vars) in[v] = true;
  std::vector<E> sl; std::vector<char> used(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!used[i] && intersects(*cons[i]->vars, in)) {
      used[i] = 1; sl.push_back(cons[i]);
      for (auto v : *cons[i]->vars) if (!in[v]) { in[v] = true; ch = true; }
    }
  }
  std::vector<uint32_t> key;
  for (auto c : sl) key.push_back(c->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  key.push_back(0); key.push_back(q->id);
  auto it = cache.find(key);
  if (it != cache.end()) { g_ss.cacheHits++; asg = it->second.a; return it->second.r; }
  std::vector<uint32_t> vars;
  for (uint32_t v = 0; v < in.size(); v++) if (in[v]) vars.push_back(v);
  // recent models
  for (auto& m : recent) {
    if (!evalExpr(q, m)) continue;
    bool ok = true;
    for (auto c : sl) if (!evalExpr(c, m)) { ok = false; break; }
    if (ok) {
      g_ss.modelHits++;
      Assign a; for (auto v : vars) a.push_back({v, v < m.size() ? m[v] & mask(g_vars[v].w) : 0});
      cache[key] = {SAT, a}; asg = a; return SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_reset(ctx, slv);
  for (auto c : sl) Z3_solver_assert(ctx, slv, tr(c));
  Z3_solver_assert(ctx, slv, tr(q));
  Z3_lbool lr = Z3_solver_check(ctx, slv);
  g_ss.z3calls++;
  Res r = lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNKNOWN;
  static int n = 0;
  if (!g_dumpdir.empty() && (n++ % g_dumpevery) == 0) {
    std::string fn = g_dumpdir + "/" + std::to_string(getpid()) + "_" + std::to_string(n) + (r == SAT ? ".sat" : r == UNSAT ? ".unsat" : ".unknown") + ".smt2";
    FILE* f = fopen(fn.c_str(), "w");
    if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, slv)); fclose(f); }
  }
  Assign a;
  if (r == SAT) {
    g_ss.sat++;
    Z3_model m = Z3_solver_get_model(ctx, slv);
    Z3_model_inc_ref(ctx, m);
    Model mm(g_vars.size(), 0);
    for (auto v : vars) {
      Z3_ast out = nullptr; uint64_t val = 0;
      E ve = mkVar(g_vars[v].name, g_vars[v].w, g_vars[v].uninit);
      Z3_func_decl fd = Z3_get_app_decl(ctx, Z3_to_app(ctx, tr(ve)));
      out = Z3_model_get_const_interp(ctx, m, fd);
      if (out) {
        if (g_vars[v].w == 1) val = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
        else Z3_get_numeral_uint64(ctx, out, (uint64_t*)&val);
      }
      a.push_back({v, val}); mm[v] = val;
    }
    Z3_model_dec_ref(ctx, m);
    // the model must satisfy what was asked (guards the translation)
    bool ok = evalExpr(q, mm); for (auto c : sl) ok = ok && evalExpr(c, mm);
    if (!ok) { fprintf(stderr, "ksym: solver model does not satisfy the query: %s\n", exprStr(q).c_str()); _exit(70); }
    if (recent.size() < 24) recent.push_back(mm); else recent[recentPos++ % 24] = mm;
  } else if (r == UNSAT) g_ss.unsat++; else g_ss.unknown++;
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.z3time += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  cache[key] = {r, a};
  asg = a;
  return r;
}
