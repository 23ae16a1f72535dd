// random expressions: the simplifying constructors against plain evaluation (--selftest N)
struct Rng { u64 x; u64 operator()() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; } };
struct RE { Op op; unsigned w, lo; u64 val; int a, b, c; };
static int selftest(u64 seed, int n) {
  Rng r{seed * 0x9E3779B97F4A7C15ull + 12345}; long cmp = 0;
  std::vector<E> vars; unsigned vw[] = {1, 1, 3, 8, 8, 16, 32, 64, 64, 64}; for (int i = 0; i < 10; i++) vars.push_back(mkVar("t" + std::to_string(i), vw[i]));
  auto interesting = [&](unsigned w) { switch (r() % 6) { case 0: return (u64)0; case 1: return mask(w); case 2: return (u64)1; case 3: return (u64)(1ull << (r() % w)) & mask(w); case 4: return (mask(w) << (r() % w)) & mask(w); default: return r() & mask(w); } };
  for (int it = 0; it < n; it++) {
    std::vector<RE> raw; std::vector<E> ex;
    for (int k = 0; k < 40; k++) {
      RE q{}; q.a = q.b = q.c = -1;
      auto pick = [&](unsigned w) -> int { std::vector<int> c; for (size_t i = 0; i < ex.size(); i++) if (ex[i]->w == w) c.push_back(i); return c.empty() ? -1 : c[r() % c.size()]; };
      unsigned kind = r() % 10; E e = nullptr;
      if (k < 8 || kind == 0) { if (r() % 2) { E v = vars[r() % 10]; q.op = E_VAR; q.w = v->w; q.val = v->val; e = v; } else { static const unsigned ws[] = {1, 3, 8, 16, 32, 64}; q.op = E_CONST; q.w = ws[r() % 6]; q.val = interesting(q.w); e = mkConst(q.val, q.w); } }
      else if (kind == 1) { int a = r() % ex.size(); if (ex[a]->w == 64) continue; unsigned w = ex[a]->w + 1 + r() % (64 - ex[a]->w); q.a = a; q.w = w; bool z = r() % 2; q.op = z ? E_ZEXT : E_SEXT; e = z ? mkZext(ex[a], w) : mkSext(ex[a], w); }
      else if (kind == 2) { int a = r() % ex.size(); unsigned w = 1 + r() % ex[a]->w, lo = r() % (ex[a]->w - w + 1); q.op = E_EXTRACT; q.a = a; q.w = w; q.lo = lo; e = mkExtract(ex[a], lo, w); }
      else if (kind == 3) { int a = r() % ex.size(), b = r() % ex.size(); if (ex[a]->w + ex[b]->w > 64) continue; q.op = E_CONCAT; q.a = a; q.b = b; q.w = ex[a]->w + ex[b]->w; e = mkConcat(ex[a], ex[b]); }
      else if (kind == 4) { int c = pick(1); int a = r() % ex.size(); int b = pick(ex[a]->w); if (c < 0) continue; q.op = E_ITE; q.a = c; q.b = a; q.c = b; q.w = ex[a]->w; e = mkIte(ex[c], ex[a], ex[b]); }
      else if (kind == 5) { int a = r() % ex.size(); q.op = E_NOT; q.a = a; q.w = ex[a]->w; e = mkNot(ex[a]); }
      else { static const Op ops[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR, E_EQ, E_ULT, E_SLT, E_UMULO, E_SMULO}; Op op = ops[r() % 18]; int a = r() % ex.size(); int b = pick(ex[a]->w); q.op = op; q.a = a; q.b = b; q.w = op >= E_EQ && op <= E_SLT ? 1 : (op == E_UMULO || op == E_SMULO) ? 1 : ex[a]->w; e = mkBin(op, ex[a], ex[b]); }
      if (e->w != q.w) { printf("selftest: width %u vs %u op %d\n", e->w, q.w, q.op); return 1; }
      raw.push_back(q); ex.push_back(e);
    }
    for (int m = 0; m < 6; m++) {
      Model md(g_vars.size()); for (size_t i = 0; i < md.size(); i++) md[i] = interesting(g_vars[i].w);
      std::vector<u64> v(raw.size());
      for (size_t i = 0; i < raw.size(); i++) {
        auto& q = raw[i];
        switch (q.op) {
          case E_CONST: v[i] = q.val; break; case E_VAR: v[i] = md[q.val] & mask(q.w); break; case E_NOT: v[i] = ~v[q.a] & mask(q.w); break; case E_ITE: v[i] = v[q.a] ? v[q.b] : v[q.c]; break;
          case E_ZEXT: v[i] = v[q.a]; break; case E_SEXT: v[i] = (u64)sx(v[q.a], raw[q.a].w) & mask(q.w); break; case E_EXTRACT: v[i] = (v[q.a] >> q.lo) & mask(q.w); break; case E_CONCAT: v[i] = (v[q.a] << raw[q.b].w) | v[q.b]; break;
          default: v[i] = foldOp(q.op, q.w, raw[q.a].w, v[q.a], v[q.b]); }
        u64 g = evalExpr(ex[i], md); cmp++;
        if (g != v[i]) { printf("selftest: mismatch op %d w %u: simplified %llx plain %llx  %s\n", q.op, q.w, (unsigned long long)g, (unsigned long long)v[i], exprStr(ex[i]).c_str()); return 1; }
        if (v[i] < ex[i]->lo || v[i] > ex[i]->hi) { printf("selftest: bounds wrong op %d %s\n", q.op, exprStr(ex[i]).c_str()); return 1; }
      }
      // and the solver agrees with the evaluation (e == its value is satisfiable together with the model, e != its value is not)
      if (m == 0 && it % 20 == 0) {
        std::vector<E> c; for (auto x : vars) c.push_back(mkBin(E_EQ, x, mkConst(md[x->val], x->w)));
        E t = ex.back(); Assign a; u64 val = v.back();
        if (solve(c, mkNot(mkBin(E_EQ, t, mkConst(val, t->w))), a) != UNSAT) { printf("selftest: solver disagrees on %s\n", exprStr(t).c_str()); return 1; }
      }
    }
  }
  printf("selftest ok: %ld evaluations, %llu solver queries\n", cmp, (unsigned long long)g_ss.z3calls); return 0;
}
