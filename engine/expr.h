// Hash-consed bit-vector expressions (width <= 64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <deque>

enum Op : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_AND, E_OR, E_XOR, E_NOT, E_EQ, E_ULT, E_SLT, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_UMULO, E_SMULO
};

typedef std::vector<uint32_t> VarSet; // sorted, interned

struct Expr {
  Op op; uint8_t w; uint8_t lo8; bool uninit; // lo8: extract low bit
  uint64_t val;                 // CONST value / VAR index
  const Expr *a, *b, *c;
  uint32_t id;
  const VarSet* vars;
  uint64_t lo, hi;              // unsigned bounds, sound
  mutable void* z = nullptr;    // z3 ast
  mutable uint64_t ev = 0; mutable uint64_t evgen = 0;
};
typedef const Expr* E;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; uint8_t w; bool uninit; };
extern std::vector<VarInfo> g_vars;

uint64_t foldOp(Op op, unsigned w, unsigned wa, uint64_t a, uint64_t b);

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
static inline E mkTrue() { return mkConst(1, 1); }
static inline bool isC(E e) { return e->op == E_CONST; }
static inline bool isC(E e, uint64_t v) { return e->op == E_CONST && e->val == v; }
std::string exprStr(E e, int depth = 6);

typedef std::vector<uint64_t> Model; // by variable index; missing = 0
uint64_t evalExpr(E e, const Model& m);
void evalNewGen();
E rebuild(E e, E a, E b, E c);
size_t exprCount();
