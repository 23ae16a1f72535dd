// A recording base allocator. It serves any size from the system allocator, refuses when told to (a symbolic choice),
// and checks that each block comes back exactly once, to the allocator that produced it, with the size it was asked for.
#pragma once
#include "common.h"
#include <cstdlib>
enum : unsigned { OWNS = 1, MAXS = 2, CONS = 4, DEST = 8, REFUSE = 16, CNOARG = 32 };
constexpr int SPY_MAX = 40;
static int g_clock = 0;
#ifdef KS_PHANTOM
static bool there(const void*, size_t) { return true; }
static size_t g_phantoms = 0;
#else
static bool there(const void* p, size_t n) { return ks_addr_ok(p, n); }
#endif
struct SpyS {
  int asks = 0, frees = 0, owned = 0, maxed = 0, cons = 0, dest = 0;
  int lastAsk = 0;                  // g_clock of the latest allocate
  size_t lastN = 0; void* lastP = nullptr;
  void* p[SPY_MAX]; size_t n[SPY_MAX]; bool live[SPY_MAX]; int nb = 0, nlive = 0;
  size_t maxsz = ~size_t(0);
  void* lastC = nullptr; void* lastD = nullptr; uint64_t consArg = 0;
  const void* lastOwn = nullptr;
  bool dead = false;
  int index(const void* q) const { for (int i = 0; i < nb; i++) if (live[i] && ks_split(p[i] == q)) return i; return -1; }
  bool has(const void* q) const {
    bool r = false; uintptr_t x = addr(q);
    for (int i = 0; i < nb; i++) if (live[i]) r = ks_or(r, ks_or(x == addr(p[i]), ks_and(x >= addr(p[i]), x - addr(p[i]) < n[i])));
    return r;
  }
  void* allocate(size_t k, bool mayRefuse) {
    if (dead) ks_fail(KS_PROP ": the wrapped allocator was already destroyed");
    asks++; lastAsk = ++g_clock; lastN = k; lastP = nullptr;
    if (ks_split(k > maxsz)) return nullptr;
    if (mayRefuse && ks_choose("refuse", 2)) return nullptr;
#ifdef KS_PHANTOM // what nobody touches need not exist: blocks above 256 bytes, up to 16 TiB, are only addresses
    if (ks_split(k > 256)) {
      if (ks_split(k > size_t(1) << 44)) return nullptr;
      if (nb == SPY_MAX) ks_fail(KS_PROP ": harness: too many blocks");
      p[nb] = (void*)((size_t(1) << 50) + (g_phantoms++ << 45)); n[nb] = k; live[nb] = true; nlive++; return lastP = p[nb++];
    }
#endif
    void* q = malloc(k);
    if (!ks_split(q != nullptr)) return nullptr;
    if (nb == SPY_MAX) ks_fail(KS_PROP ": harness: too many blocks");
    p[nb] = q; n[nb] = k; live[nb] = true; nb++; nlive++;
    return lastP = q;
  }
  void deallocate(void* q, size_t k) {
    if (dead) ks_fail(KS_PROP ": the wrapped allocator was already destroyed");
    frees++;
    int i = index(q);
    if (i < 0) ks_fail(KS_PROP ": deallocate reaches an allocator that has no such live block");
    ks_check(k == n[i], KS_PROP ": a block is given back with the size it was requested with");
    live[i] = false; nlive--;
#ifdef KS_PHANTOM
    if (addr(q) >= size_t(1) << 50) return;
#endif
    free(q);
  }
  bool quiet(const SpyS& o) const { return asks == o.asks && frees == o.frees; }
};
template<class T> struct spy_base {};
// state shared by all allocators of the same Id
template<int Id, unsigned F> struct Spy {
  static inline SpyS s{};
  Spy() = default;
  bool operator==(const Spy&) const noexcept { return true; }
  bool operator!=(const Spy&) const noexcept { return false; }
  void* allocate(size_t n) noexcept { return s.allocate(n, F & REFUSE); }
  void deallocate(void* p, size_t n) noexcept { s.deallocate(p, n); }
  template<unsigned G = F> std::enable_if_t<(G & OWNS) != 0, bool> owns(void* p) const noexcept { s.owned++; s.lastOwn = p; return s.has(p); }
  template<unsigned G = F> std::enable_if_t<(G & MAXS) != 0, size_t> max_size() const noexcept { s.maxed++; return s.maxsz; }
  template<class T, class... A> std::enable_if_t<(F & CONS) != 0 && (sizeof...(A) != 77) && sizeof(T) != 0, void> construct(T* p, A&&... a) noexcept { s.cons++; s.lastC = p; ::new (p) T(std::forward<A>(a)...); }
  template<class T> std::enable_if_t<(F & DEST) != 0 && sizeof(T) != 0, void> destroy(T* p) noexcept { s.dest++; s.lastD = p; p->~T(); }
};
// state reached through a pointer: several distinct allocators of one type
template<unsigned F> struct SpyP {
  SpyS* s;
  explicit SpyP(SpyS* x) noexcept : s(x) {}
  SpyP(const SpyP&) noexcept = default; SpyP& operator=(const SpyP&) noexcept = default;
  bool operator==(const SpyP& o) const noexcept { return s == o.s; }
  bool operator!=(const SpyP& o) const noexcept { return s != o.s; }
  void* allocate(size_t n) noexcept { return s->allocate(n, F & REFUSE); }
  void deallocate(void* p, size_t n) noexcept { s->deallocate(p, n); }
  template<unsigned G = F> std::enable_if_t<(G & OWNS) != 0, bool> owns(void* p) const noexcept { s->owned++; s->lastOwn = p; return s->has(p); }
  template<unsigned G = F> std::enable_if_t<(G & MAXS) != 0, size_t> max_size() const noexcept { s->maxed++; return s->maxsz; }
  template<class T, class... A> std::enable_if_t<(F & CONS) != 0 && sizeof(T) != 0 && (sizeof...(A) != 77), void> construct(T* p, A&&... a) noexcept { s->cons++; s->lastC = p; ::new (p) T(std::forward<A>(a)...); }
  template<class T> std::enable_if_t<(F & DEST) != 0 && sizeof(T) != 0, void> destroy(T* p) noexcept { s->dest++; s->lastD = p; p->~T(); }
};
