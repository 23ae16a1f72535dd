#include "expr.h"
#include <cstring>

std::vector<VarInfo> g_vars;
static std::deque<Expr> g_pool;
static std::unordered_map<std::string, E> g_varByName;
size_t exprCount() { return g_pool.size(); }

struct VSHash { size_t operator()(const VarSet& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<VarSet, const VarSet*, VSHash> g_sets;
static const VarSet* internSet(const VarSet& s) {
  auto it = g_sets.find(s);
  if (it != g_sets.end()) return it->second;
  auto* p = new VarSet(s);
  g_sets.emplace(s, p);
  return p;
}
static const VarSet* g_empty = internSet({});
static const VarSet* unionSet(const VarSet* a, const VarSet* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  VarSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return internSet(r);
}

struct Key { Op op; uint8_t w, lo8; uint64_t val; E a, b, c; bool operator==(const Key& o) const { return op == o.op && w == o.w && lo8 == o.lo8 && val == o.val && a == o.a && b == o.b && c == o.c; } };
struct KeyHash { size_t operator()(const Key& k) const {
  uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)k.w << 8 | k.lo8);
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.val); mix(k.a ? k.a->id : 0); mix(k.b ? k.b->id : 0); mix(k.c ? k.c->id : 0); return h; } };
static std::unordered_map<Key, E, KeyHash> g_tab;

static void bounds(Expr& x) {
  uint64_t M = mask(x.w);
  x.lo = 0; x.hi = M;
  switch (x.op) {
    case E_CONST: x.lo = x.hi = x.val; break;
    case E_ADD: { if (x.a->hi <= M - x.b->hi) { x.lo = x.a->lo + x.b->lo; x.hi = x.a->hi + x.b->hi; } break; }
    case E_SUB: if (x.a->lo >= x.b->hi) { x.lo = x.a->lo - x.b->hi; x.hi = x.a->hi - x.b->lo; } break;
    case E_MUL: if (x.a->hi == 0 || x.b->hi <= M / x.a->hi) { x.lo = x.a->lo * x.b->lo; x.hi = x.a->hi * x.b->hi; } break;
    case E_UDIV: if (x.b->lo > 0) { x.lo = x.a->lo / x.b->hi; x.hi = x.a->hi / x.b->lo; } break;
    case E_UREM: x.hi = x.a->hi; if (x.b->lo > 0 && x.b->hi - 1 < x.hi) x.hi = x.b->hi - 1; break;
    case E_SHL: if (isC(x.b) && x.b->val < x.w && x.a->hi <= (M >> x.b->val)) { x.lo = x.a->lo << x.b->val; x.hi = x.a->hi << x.b->val; } break;
    case E_LSHR: if (isC(x.b) && x.b->val < x.w) { x.lo = x.a->lo >> x.b->val; x.hi = x.a->hi >> x.b->val; } else x.hi = x.a->hi; break;
    case E_AND: x.hi = std::min(x.a->hi, x.b->hi); break;
    case E_OR: { uint64_t m = x.a->hi | x.b->hi; while (m & (m + 1)) m |= m >> 1; x.hi = m & M; x.lo = std::max(x.a->lo, x.b->lo); break; }
    case E_XOR: { uint64_t m = x.a->hi | x.b->hi; while (m & (m + 1)) m |= m >> 1; x.hi = m & M; break; }
    case E_ITE: x.lo = std::min(x.b->lo, x.c->lo); x.hi = std::max(x.b->hi, x.c->hi); break;
    case E_ZEXT: x.lo = x.a->lo; x.hi = x.a->hi; break;
    case E_EXTRACT: if (x.lo8 == 0 && x.a->hi <= M) { x.lo = x.a->lo; x.hi = x.a->hi; } else if (x.lo8 && (x.a->hi >> x.lo8) <= M) { x.lo = x.a->lo >> x.lo8; x.hi = x.a->hi >> x.lo8; } break;
    case E_CONCAT: x.lo = (x.a->lo << x.b->w) + x.b->lo; x.hi = (x.a->hi << x.b->w) + x.b->hi; break;
    default: break;
  }
}

static E intern(Op op, unsigned w, uint64_t val, E a, E b, E c, unsigned lo8 = 0) {
  Key k{op, (uint8_t)w, (uint8_t)lo8, val, a, b, c};
  auto it = g_tab.find(k);
  if (it != g_tab.end()) return it->second;
  g_pool.emplace_back();
  Expr& x = g_pool.back();
  x.op = op; x.w = w; x.lo8 = lo8; x.val = val; x.a = a; x.b = b; x.c = c; x.id = g_pool.size();
  x.uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
  const VarSet* vs = g_empty;
  if (a) vs = unionSet(vs, a->vars);
  if (b) vs = unionSet(vs, b->vars);
  if (c) vs = unionSet(vs, c->vars);
  x.vars = vs;
  bounds(x);
  g_tab.emplace(k, &x);
  return &x;
}

E mkConst(uint64_t v, unsigned w) { return intern(E_CONST, w, v & mask(w), nullptr, nullptr, nullptr); }
E mkVar(const std::string& name, unsigned w, bool uninit) {
  std::string key = name + "/" + std::to_string(w);
  auto it = g_varByName.find(key);
  if (it != g_varByName.end()) return it->second;
  uint32_t idx = g_vars.size();
  g_vars.push_back({name, (uint8_t)w, uninit});
  g_pool.emplace_back();
  Expr& x = g_pool.back();
  x.op = E_VAR; x.w = w; x.lo8 = 0; x.val = idx; x.a = x.b = x.c = nullptr; x.id = g_pool.size();
  x.uninit = uninit; x.vars = internSet({idx}); x.lo = 0; x.hi = mask(w);
  g_varByName[key] = &x;
  return &x;
}

uint64_t foldOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b) {
  uint64_t M = mask(w);
  switch (op) {
    case E_ADD: return (a + b) & M;
    case E_SUB: return (a - b) & M;
    case E_MUL: return (a * b) & M;
    case E_UDIV: return b ? a / b : M;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: { int64_t x = sx(a, wa), y = sx(b, wa); if (!y) return x < 0 ? 1 : M; if (y == -1) return (uint64_t)(-(uint64_t)x) & M; return (uint64_t)(x / y) & M; }
    case E_SREM: { int64_t x = sx(a, wa), y = sx(b, wa); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
    case E_SHL: return b >= w ? 0 : (a << b) & M;
    case E_LSHR: return b >= w ? 0 : a >> b;
    case E_ASHR: { int64_t x = sx(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & M; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_SLT: return sx(a, wa) < sx(b, wa);
    case E_UMULO: { unsigned __int128 p = (unsigned __int128)a * b; return (p >> wa) != 0; }
    case E_SMULO: { __int128 p = (__int128)sx(a, wa) * sx(b, wa); return p != (__int128)sx((uint64_t)p & mask(wa), wa); }
    default: abort();
  }
}

static bool isCmp(Op op) { return op == E_EQ || op == E_ULT || op == E_SLT || op == E_UMULO || op == E_SMULO; }
static bool commut(Op op) { return op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ || op == E_UMULO || op == E_SMULO; }

// a == x + c ? returns (x,c)
static void split(E e, E& x, uint64_t& c) { if (e->op == E_ADD && isC(e->b)) { x = e->a; c = e->b->val; } else { x = e; c = 0; } }

E mkNot(E a) {
  if (isC(a)) return mkConst(~a->val, a->w);
  if (a->op == E_NOT) return a->a;
  return intern(E_NOT, a->w, 0, a, nullptr, nullptr);
}

E mkBin(Op op, E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  unsigned w = isCmp(op) ? 1 : a->w;
  if (isC(a) && isC(b)) return mkConst(foldOp(op, w, a->w, a->val, b->val), w);
  if (commut(op)) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  uint64_t M = mask(a->w);
  switch (op) {
    case E_ADD: {
      if (isC(b, 0)) return a;
      if (a->w == 1) return mkBin(E_XOR, a, b);
      E xa, xb; uint64_t ca, cb;
      if (isC(b)) {
        if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == E_SUB && isC(a->a)) return mkBin(E_SUB, mkConst(a->a->val + b->val, w), a->b);
        break;
      }
      split(a, xa, ca); split(b, xb, cb);
      if (ca || cb) return mkBin(E_ADD, mkBin(E_ADD, xa, xb), mkConst(ca + cb, w));
      if (a->op == E_SUB && a->b == b) return a->a;
      if (b->op == E_SUB && b->b == a) return b->a;
      break;
    }
    case E_SUB: {
      if (a == b) return mkConst(0, w);
      if (a->w == 1) return mkBin(E_XOR, a, b);
      if (isC(b)) return mkBin(E_ADD, a, mkConst(-b->val, w));
      // x - (x / c) * c
      if (b->op == E_MUL && isC(b->b) && b->a->op == E_UDIV && b->a->a == a && b->a->b == b->b && b->b->val) return mkBin(E_UREM, a, b->b);
      if (b->op == E_SHL && isC(b->b) && b->a->op == E_ZEXT && b->a->a->op == E_EXTRACT && b->a->a->a == a && b->a->a->lo8 == b->b->val && b->a->a->w + b->b->val == w) return mkBin(E_AND, a, mkConst(mask(b->b->val), w));
      E xa, xb; uint64_t ca, cb;
      split(a, xa, ca); split(b, xb, cb);
      if (xa == xb) return mkConst(ca - cb, w);
      if (cb || (ca && !isC(a))) return mkBin(E_ADD, mkBin(E_SUB, xa, xb), mkConst(ca - cb, w));
      if (a->op == E_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      if (b->op == E_ADD) { if (b->a == a) return mkBin(E_SUB, mkConst(0, w), b->b); if (b->b == a) return mkBin(E_SUB, mkConst(0, w), b->a); }
      if (a->op == E_ADD && b->op == E_ADD) {
        if (a->a == b->a) return mkBin(E_SUB, a->b, b->b);
        if (a->b == b->b) return mkBin(E_SUB, a->a, b->a);
        if (a->a == b->b) return mkBin(E_SUB, a->b, b->a);
        if (a->b == b->a) return mkBin(E_SUB, a->a, b->b);
      }
      break;
    }
    case E_MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (a->w == 1) return mkBin(E_AND, a, b);
      if (isC(b) && !(b->val & (b->val - 1))) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(b->val), w));
      break;
    case E_UDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && b->val && !(b->val & (b->val - 1))) return mkBin(E_LSHR, a, mkConst(__builtin_ctzll(b->val), w));
      if (isC(b) && b->val && a->op == E_MUL && isC(a->b, b->val) && (a->a->hi <= M / b->val)) return a->a;
      break;
    case E_SDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && b->val && a->hi < (1ull << (w - 1)) && b->val < (1ull << (w - 1))) return mkBin(E_UDIV, a, b);
      break;
    case E_UREM:
      if (isC(b, 1)) return mkConst(0, w);
      if (isC(b) && b->val && !(b->val & (b->val - 1))) return mkBin(E_AND, a, mkConst(b->val - 1, w));
      if (b->lo > a->hi) return a;
      break;
    case E_SREM:
      if (isC(b) && b->val && a->hi < (1ull << (w - 1)) && b->val < (1ull << (w - 1))) return mkBin(E_UREM, a, b);
      break;
    case E_SHL: case E_LSHR: case E_ASHR:
      if (isC(b, 0)) return a;
      if (isC(a, 0)) return a;
      if (isC(b) && b->val >= w && op != E_ASHR) return mkConst(0, w);
      if (op == E_LSHR && isC(b)) return mkZext(mkExtract(a, b->val, w - b->val), w);
      if (op == E_SHL && isC(b)) {
        if (a->op == E_SHL && isC(a->b)) return mkBin(E_SHL, a->a, mkConst(std::min<uint64_t>(w, a->b->val + b->val), w));
      }
      if (op == E_ASHR && isC(b) && b->val < w) {
        if (a->hi < (1ull << (w - 1))) return mkBin(E_LSHR, a, b);
        // (x << k) >>s k with x small
        if (a->op == E_SHL && isC(a->b) && a->b->val == b->val) return mkSext(mkExtract(a->a, 0, w - b->val), w);
        return mkSext(mkExtract(a, b->val, w - b->val), w);
      }
      break;
    case E_AND:
      if (a == b) return a;
      if (isC(b, 0)) return b;
      if (isC(b, M)) return a;
      if (isC(b)) {
        if (a->op == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkConst(a->b->val & b->val, w));
        // low mask
        if (!(b->val & (b->val + 1))) {
          unsigned k = __builtin_popcountll(b->val);
          if (a->hi <= b->val) return a;
          return mkZext(mkExtract(a, 0, k), w);
        }
        // mask of trailing zeros over all high bits: keep as AND
        if (a->op == E_ADD && isC(a->b)) { uint64_t low = b->val & -b->val; if ((b->val == (M & ~(low - 1))) && !(a->b->val & (low - 1)) && a->b->val) return mkBin(E_ADD, mkBin(E_AND, a->a, b), a->b); }
      }
      if (w == 1) { if (a->op == E_NOT && a->a == b) return mkConst(0, 1); if (b->op == E_NOT && b->a == a) return mkConst(0, 1); }
      break;
    case E_OR:
      if (a == b) return a;
      if (isC(b, 0)) return a;
      if (isC(b, M)) return b;
      if (w == 1) { if (a->op == E_NOT && a->a == b) return mkConst(1, 1); if (b->op == E_NOT && b->a == a) return mkConst(1, 1); }
      break;
    case E_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b, 0)) return a;
      if (isC(b, M)) return mkNot(a);
      break;
    case E_EQ:
      if (a == b) return mkTrue();
      if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
      if (a->w == 1) { if (isC(b)) return b->val ? a : mkNot(a); break; }
      if (isC(b)) {
        if (a->op == E_ZEXT) { if (b->val > mask(a->a->w)) return mkConst(0, 1); return mkBin(E_EQ, a->a, mkConst(b->val, a->a->w)); }
        if (a->op == E_SEXT) { if ((uint64_t)(sx(b->val & mask(a->a->w), a->a->w)) != (uint64_t)sx(b->val, w == 1 ? a->w : a->w)) { if ((sx(b->val & mask(a->a->w), a->a->w)) != sx(b->val, a->w)) return mkConst(0, 1); } return mkBin(E_EQ, a->a, mkConst(b->val, a->a->w)); }
        if (a->op == E_ADD && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(b->val - a->b->val, a->w));
        if (a->op == E_SUB && isC(a->a)) return mkBin(E_EQ, a->b, mkConst(a->a->val - b->val, a->w));
        if (a->op == E_SUB && b->val == 0) return mkBin(E_EQ, a->a, a->b);
        if (a->op == E_NOT) return mkBin(E_EQ, a->a, mkNot(b));
        if (a->op == E_XOR && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(a->b->val ^ b->val, a->w));
        if (a->op == E_XOR && b->val == 0) return mkBin(E_EQ, a->a, a->b);
        if (a->op == E_ITE && isC(a->b) && isC(a->c)) {
          bool t = a->b->val == b->val, f = a->c->val == b->val;
          if (t && f) return mkTrue(); if (!t && !f) return mkConst(0, 1);
          return t ? a->a : mkNot(a->a);
        }
        if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(E_EQ, a->b, b), mkBin(E_EQ, a->c, b));
        if (a->op == E_CONCAT) return mkBin(E_AND, mkBin(E_EQ, a->a, mkConst(b->val >> a->b->w, a->a->w)), mkBin(E_EQ, a->b, mkConst(b->val, a->b->w)));
        if (a->op == E_SHL && isC(a->b)) { unsigned k = a->b->val; if (b->val & mask(k)) return mkConst(0, 1); return mkBin(E_EQ, mkExtract(a->a, 0, a->w - k), mkConst(b->val >> k, a->w - k)); }
      } else {
        if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkBin(E_EQ, mkZext(a->a, m), mkZext(b->a, m)); }
        E xa, xb; uint64_t ca, cb; split(a, xa, ca); split(b, xb, cb);
        if (xa == xb) return mkConst(ca == cb, 1);
        if (ca && cb) return mkBin(E_EQ, mkBin(E_ADD, xa, mkConst(ca - cb, a->w)), xb);
        if (a->op == E_ADD && b->op == E_ADD) { if (a->a == b->a) return mkBin(E_EQ, a->b, b->b); if (a->b == b->b) return mkBin(E_EQ, a->a, b->a); if (a->a == b->b) return mkBin(E_EQ, a->b, b->a); if (a->b == b->a) return mkBin(E_EQ, a->a, b->b); }
        if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return mkBin(E_AND, mkBin(E_EQ, a->a, b->a), mkBin(E_EQ, a->b, b->b));
      }
      break;
    case E_ULT:
      if (a == b) return mkConst(0, 1);
      if (a->hi < b->lo) return mkTrue();
      if (a->lo >= b->hi) return mkConst(0, 1);
      if (isC(b, 1)) return mkBin(E_EQ, a, mkConst(0, a->w));
      if (isC(a, 0)) return mkNot(mkBin(E_EQ, b, a));
      if (isC(a) && b->op == E_ZEXT && a->val <= mask(b->a->w)) return mkBin(E_ULT, mkConst(a->val, b->a->w), b->a);
      if (isC(b) && a->op == E_ZEXT && b->val <= mask(a->a->w)) return mkBin(E_ULT, a->a, mkConst(b->val, a->a->w));
      if (a->op == E_ZEXT && b->op == E_ZEXT) { unsigned m = std::max(a->a->w, b->a->w); return mkBin(E_ULT, mkZext(a->a, m), mkZext(b->a, m)); }
      // x + c1 < c2 where no overflow
      if (isC(b) && a->op == E_ADD && isC(a->b) && a->a->hi <= M - a->b->val) { if (b->val <= a->b->val) return mkConst(0, 1); return mkBin(E_ULT, a->a, mkConst(b->val - a->b->val, a->w)); }
      if (isC(a) && b->op == E_ADD && isC(b->b) && b->a->hi <= M - b->b->val) { if (a->val < b->b->val) return mkTrue(); return mkBin(E_ULT, mkConst(a->val - b->b->val, a->w), b->a); }
      break;
    case E_SLT:
      if (a == b) return mkConst(0, 1);
      { uint64_t S = 1ull << (a->w - 1); if (a->hi < S && b->hi < S) return mkBin(E_ULT, a, b); if (a->lo >= S && b->lo >= S) return mkBin(E_ULT, a, b); if (a->hi < S && b->lo >= S) return mkConst(0, 1); if (a->lo >= S && b->hi < S) return mkTrue(); }
      break;
    case E_UMULO:
      if (isC(b, 0) || isC(b, 1)) return mkConst(0, 1);
      if (isC(b)) return mkBin(E_ULT, mkConst(M / b->val, a->w), a);
      if (a->hi == 0 || b->hi <= M / a->hi) return mkConst(0, 1);
      break;
    default: break;
  }
  return intern(op, w, 0, a, b, nullptr);
}

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->val ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->val ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(E_ITE, a->w, 0, c, a, b);
}
E mkZext(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst(a->val, w);
  if (a->op == E_ZEXT) return mkZext(a->a, w);
  return intern(E_ZEXT, w, 0, a, nullptr, nullptr);
}
E mkSext(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(sx(a->val, a->w), w);
  if (a->hi < (1ull << (a->w - 1))) return mkZext(a, w);
  if (a->op == E_SEXT) return mkSext(a->a, w);
  return intern(E_SEXT, w, 0, a, nullptr, nullptr);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  switch (a->op) {
    case E_EXTRACT: return mkExtract(a->a, a->lo8 + lo, w);
    case E_ZEXT:
      if (lo >= a->a->w) return mkConst(0, w);
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case E_SEXT:
      if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
      if (lo == 0 && w > a->a->w) return mkSext(a->a, w);
      break;
    case E_CONCAT:
      if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
      if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case E_AND: case E_OR: case E_XOR:
      if (isC(a->b)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      break;
    case E_NOT: return mkNot(mkExtract(a->a, lo, w));
    case E_ITE: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
    case E_ADD: if (lo == 0) return mkBin(E_ADD, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case E_SUB: if (lo == 0) return mkBin(E_SUB, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case E_SHL:
      if (isC(a->b)) {
        unsigned k = a->b->val;
        if (lo >= k) return mkExtract(a->a, lo - k, w);
        if (lo + w <= k) return mkConst(0, w);
        return mkConcat(mkExtract(a->a, 0, w - (k - lo)), mkConst(0, k - lo));
      }
      break;
    default: break;
  }
  if ((a->hi >> lo) == 0 && lo > 0) return mkConst(0, w);
  return intern(E_EXTRACT, w, 0, a, nullptr, nullptr, lo);
}
E mkConcat(E h, E l) {
  if (isC(h) && isC(l)) return mkConst((h->val << l->w) | l->val, h->w + l->w);
  if (isC(h, 0)) return mkZext(l, h->w + l->w);
  if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->a == l->a && h->lo8 == l->lo8 + l->w) return mkExtract(h->a, l->lo8, h->w + l->w);
  // extract of x's top part reached by x itself being narrower handled above
  if (h->op == E_EXTRACT && h->a == l && false) return nullptr;
  // concat(extract(x,k..), x_low) where l is (concat hi' lo') chain: re-associate
  if (l->op == E_CONCAT && h->op == E_EXTRACT && l->a->op == E_EXTRACT && h->a == l->a->a && h->lo8 == l->a->lo8 + l->a->w)
    return mkConcat(mkExtract(h->a, l->a->lo8, h->w + l->a->w), l->b);
  if (h->op == E_ZEXT) return mkZext(mkConcat(h->a, l), h->w + l->w);
  if (h->op == E_ITE && l->op == E_ITE && h->a == l->a) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
  return intern(E_CONCAT, h->w + l->w, 0, h, l, nullptr);
}

E rebuild(E e, E a, E b, E c) {
  switch (e->op) {
    case E_CONST: case E_VAR: return e;
    case E_NOT: return mkNot(a);
    case E_ITE: return mkIte(a, b, c);
    case E_ZEXT: return mkZext(a, e->w);
    case E_SEXT: return mkSext(a, e->w);
    case E_EXTRACT: return mkExtract(a, e->lo8, e->w);
    case E_CONCAT: return mkConcat(a, b);
    default: return mkBin(e->op, a, b);
  }
}

static uint64_t g_gen = 1;
void evalNewGen() { g_gen++; }
static uint64_t ev(E e, const Model& m) {
  if (e->op == E_CONST) return e->val;
  if (e->evgen == g_gen) return e->ev;
  uint64_t r;
  switch (e->op) {
    case E_VAR: r = e->val < m.size() ? m[e->val] & mask(e->w) : 0; break;
    case E_NOT: r = ~ev(e->a, m) & mask(e->w); break;
    case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case E_ZEXT: r = ev(e->a, m); break;
    case E_SEXT: r = (uint64_t)sx(ev(e->a, m), e->a->w) & mask(e->w); break;
    case E_EXTRACT: r = (ev(e->a, m) >> e->lo8) & mask(e->w); break;
    case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    default: r = foldOp(e->op, e->w, e->a->w, ev(e->a, m), ev(e->b, m)); break;
  }
  e->ev = r; e->evgen = g_gen;
  return r;
}
uint64_t evalExpr(E e, const Model& m) { evalNewGen(); return ev(e, m); }

std::string exprStr(E e, int d) {
  static const char* nm[] = {"const","var","+","-","*","/u","/s","%u","%s","<<",">>u",">>s","&","|","^","~","==","<u","<s","ite","zext","sext","extract","concat","umulo","smulo"};
  if (isC(e)) { char b[40]; snprintf(b, sizeof b, e->val > 9999 ? "0x%llx" : "%llu", (unsigned long long)e->val); return b; }
  if (e->op == E_VAR) return g_vars[e->val].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + nm[e->op];
  if (e->op == E_EXTRACT) s += "[" + std::to_string(e->lo8) + "+" + std::to_string(e->w) + "]";
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1);
  return s + ")";
}
