// cascading over instances that each hold a limited number of bytes: growth, routing, destruction of empty instances.
// REACH: served refused freed grew ended
#include "spy.h"
#include "ktl/allocators/cascading.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 7
#endif
constexpr int NI = KS_STEPS + 10;
constexpr size_t CAP = 64;
static SpyS inst[NI]; static int made = 0; static bool gone[NI];
// a fresh instance serves any request of at most Lim bytes; an instance serves at most CAP bytes in all
template<size_t Lim, bool Max> struct Inst {
  int id; size_t used = 0;
  Inst() { id = made++; if (id >= NI) ks_fail(KS_PROP ": more instances than requests"); gone[id] = false; }
  Inst(const Inst&) = delete;
  ~Inst() { if (gone[id]) ks_fail(KS_PROP ": an instance is destroyed twice"); gone[id] = true; inst[id].dead = true; }
  bool operator==(const Inst& o) const noexcept { return id == o.id; }
  bool operator!=(const Inst& o) const noexcept { return id != o.id; }
  void* allocate(size_t n) noexcept {
    inst[id].lastP = nullptr;
    if (inst[id].dead) ks_fail(KS_PROP ": a destroyed instance is used");
    if (ks_split(ks_or(n > Lim, n > CAP - used))) { inst[id].asks++; return nullptr; }
    used += n; return inst[id].allocate(n, false);
  }
  void deallocate(void* p, size_t n) noexcept { inst[id].deallocate(p, n); if (inst[id].nlive == 0) used = 0; }
  bool owns(void* p) const noexcept { if (inst[id].dead) ks_fail(KS_PROP ": a destroyed instance is used"); return inst[id].has(p); }
  template<bool B = Max> std::enable_if_t<B, size_t> max_size() const noexcept { return CAP; }
};
struct Blk { void* p; size_t n; int own; bool live; };
static int alive() { int r = 0; for (int i = 0; i < made; i++) r += !gone[i]; return r; }
static int idle() { int r = 0; for (int i = 0; i < made; i++) r += !gone[i] && !inst[i].nlive; return r; }
template<size_t Lim, bool Max, int K> static void history(bool move) {
  using C = cascading<Inst<Lim, Max>>;
  Raw<C> rc; C* c = new (rc.p()) C();
  CHECK("B04", made == 0 || alive() <= 1, "no more than one instance before the first request");
  Blk b[K + 4]; int nb = 0, live = 0;
  for (int step = 0; step < K; step++) {
    int nops = 1 + live + (move ? 3 : 0);
    int op = (int)ks_choose("op", nops);
    if (op == 0) {
      size_t n = ks_u64("n");
      int m0 = made, al = alive(); int as[NI]; for (int i = 0; i < NI; i++) as[i] = inst[i].nb;
      void* q = c->allocate(n);
      if (ks_split(ks_or(n > Lim, n > CAP))) {
        ks_reach("refused");
        CHECK("A03", q == nullptr, "a request no fresh instance can serve is refused");
        CHECK("A03", alive() <= (al ? al : 1), "a refused request leaves no additional instance behind");
        continue;
      }
      CHECK("B04", q != nullptr, "any request a fresh instance can serve is served");
      if (!q) return;
      int who = -1; for (int i = 0; i < made; i++) if (inst[i].nb != as[i]) { CHECK("B04", who < 0 && inst[i].nb == as[i] + 1, "one instance serves the request"); who = i; }
      CHECK("B04", who >= 0 && inst[who].lastP == q && !gone[who], "the block is the one the instance returned");
      CHECK("B04", inst[who].lastN == n, "the size is passed on unchanged");
      CHECK("B04", made - m0 <= 1, "at most one instance is added per request");
      if (made != m0) ks_reach("grew");
      for (int i = 0; i < nb; i++) if (b[i].live) CHECK("B04", !ks_split(b[i].p == q), "live blocks do not overlap");
      ks_reach("served");
      b[nb++] = Blk{q, n, who, true}; live++;
    } else if (op <= live) {
      int i = 0, k = op; for (;; i++) if (b[i].live && --k == 0) break;
      bool z0 = c->owns(b[i].p);
      CHECK("A05", z0, "owns() is true for a live block of any instance");
      int fr = inst[b[i].own].frees, tot = 0; for (int j = 0; j < made; j++) tot += inst[j].frees;
      c->deallocate(b[i].p, b[i].n);
      int tot2 = 0; for (int j = 0; j < made; j++) tot2 += inst[j].frees;
      CHECK("B04", inst[b[i].own].frees == fr + 1 && tot2 == tot + 1, "the block goes back once, to the instance that produced it");
      ks_reach("freed");
      b[i].live = false; live--;
    } else {
      int k = op - live;
      if (k == 1) { Raw<C> rd; C* d = new (rd.p()) C(std::move(*c)); c->~C(); c = new (rc.p()) C(std::move(*d)); d->~C(); }
      else if (k == 2) { // assigned to: what it had goes, what the source had stays
        C d; void* q = d.allocate(8); int own = made - 1;
        // KTL_ASSERT demands that the target holds no blocks
        if (live) { for (int i = 0; i < nb; i++) if (b[i].live) { c->deallocate(b[i].p, b[i].n); b[i].live = false; live--; } }
        int al = alive();
        *c = std::move(d);
        CHECK("B04", q != nullptr && !gone[own], "the instances of the source of a move survive");
        CHECK("B04", alive() == 1, "the instances the target had are destroyed");
        b[nb++] = Blk{q, 8, own, true}; live++;
      } else { // moving a whole allocator away leaves an empty one that can be used again
        C d(std::move(*c)); void* q = c->allocate(8); CHECK("B04", q != nullptr, "a moved-from allocator can be used again"); if (q) c->deallocate(q, 8);
        *c = std::move(d);
      }
    }
    for (int i = 0; i < nb; i++) if (b[i].live) CHECK("B04", !gone[b[i].own], "no instance with a live block is destroyed");
    CHECK("B04", idle() <= 1, "instances that hold no block do not pile up");
  }
  for (int i = 0; i < nb; i++) if (b[i].live) c->deallocate(b[i].p, b[i].n);
  c->~C();
  ks_reach("ended");
  CHECK("B04", alive() == 0, "every instance is destroyed");
  for (int i = 0; i < made; i++) CHECK("B04", inst[i].nlive == 0, "every block was given back");
  CHECK("B04", ks_heap_live() == 0, "the memory of every instance is released");
}
KS_ENTRY(lim64_max) { history<64, true, KS_STEPS>(false); }
KS_ENTRY(lim64_nomax) { history<64, false, KS_STEPS>(false); }
KS_ENTRY(lim40_max) { history<40, true, KS_STEPS>(false); }
KS_ENTRY(lim40_nomax) { history<40, false, KS_STEPS>(false); }
KS_ENTRY(move_max) { history<64, true, KS_STEPS - 1>(true); }
KS_ENTRY(move_nomax) { history<40, false, KS_STEPS - 1>(true); }
// many instances: one or two blocks in each, given back in any rotation of either order, some of them twice
template<bool Max> static void longrun() {
  using C = cascading<Inst<64, Max>>; constexpr int N = 9;
  Raw<C> rc; C* c = new (rc.p()) C();
  int n = ks_choose("few", 2) ? 4 : N; bool pairs = ks_choose("pairs", 2); size_t sz = ks_u64("n"); ks_assume(pairs ? ks_and(sz > 21, sz <= 32) : ks_and(sz > 32, sz <= CAP));
  Blk b[N + 3]; 
  auto take = [&](int i) {
    int as[NI]; for (int k = 0; k < NI; k++) as[k] = inst[k].nb;
    void* q = c->allocate(sz); CHECK("B04", q != nullptr, "any request a fresh instance can serve is served"); if (!q) ks_assume(0);
    int who = -1; for (int k = 0; k < made; k++) if (inst[k].nb != as[k]) who = k;
    CHECK("B04", who >= 0 && !gone[who] && inst[who].lastP == q, "the block is the one the instance returned"); b[i] = Blk{q, sz, who, true};
  };
  auto sane = [&](int m) { for (int i = 0; i < m; i++) if (b[i].live) CHECK("B04", !gone[b[i].own], "no instance with a live block is destroyed"); CHECK("B04", idle() <= 1, "instances that hold no block do not pile up"); };
  auto give = [&](int i) {
    int fr = inst[b[i].own].frees; bool o = c->owns(b[i].p); CHECK("A05", o, "owns() is true for a live block of any instance");
    c->deallocate(b[i].p, sz); b[i].live = false; CHECK("B04", inst[b[i].own].frees == fr + 1, "the block goes back once, to the instance that produced it");
  };
  for (int i = 0; i < n; i++) take(i);
  sane(n); if (made > 1) ks_reach("grew"); ks_reach("served");
  int rot = (int)ks_choose("rot", n), rev = (int)ks_choose("rev", 2), cnt = (int)ks_choose("count", n + 1);
  for (int i = 0; i < cnt; i++) { give(rev ? (rot + n - i) % n : (rot + i) % n); sane(n); }
  int m = n; for (int i = 0; i < 2; i++) { take(m); m++; sane(m); }
  for (int i = 0; i < m; i++) if (b[i].live) { give(i); sane(m); }
  ks_reach("freed"); ks_reach("refused");
  CHECK("B04", idle() <= 1, "instances that hold no block do not pile up");
  c->~C(); ks_reach("ended"); CHECK("B04", alive() == 0, "every instance is destroyed"); CHECK("B04", ks_heap_live() == 0, "the memory of every instance is released");
}
KS_ENTRY(long_max) { longrun<true>(); }
KS_ENTRY(long_nomax) { longrun<false>(); }
// many blocks in one instance: the count of live blocks does not lose track
static int crowds = 0; static bool crowdGone[4];
struct Crowd { int id; uint8_t* m; size_t used = 0; static inline uint8_t mem[2][1 << 17];
  Crowd() { id = crowds++; if (id > 1) ks_fail(KS_PROP ": more instances than needed"); m = mem[id & 1]; } ~Crowd() { crowdGone[id] = true; } Crowd(const Crowd&) = delete;
  void* allocate(size_t n) noexcept { if (used + n > lim) return nullptr; used += n; return m + used - n; } static inline size_t lim = 0;
  void deallocate(void*, size_t) noexcept {} bool owns(void* p) const noexcept { return p >= m && p < m + lim; }
  bool operator==(const Crowd& o) const noexcept { return this == &o; } bool operator!=(const Crowd& o) const noexcept { return this != &o; } };
KS_ENTRY(crowd) {
  using C = cascading<Crowd>; ks_fuel(60000000);
  static constexpr int N[] = {127, 128, 256, 257, 32768, 65536, 65537}; int n = N[ks_choose("blocks", 7)]; Crowd::lim = n;
  int before = (int)ks_choose("before", 3); before = before == 0 ? 0 : before == 1 ? 1 : n / 2; // given back before the second instance is made
  Raw<C> rc; C* c = new (rc.p()) C(); uint8_t* m = Crowd::mem[0];
  for (int i = 0; i < n; i++) if (c->allocate(1) != m + i) ks_fail(KS_PROP ": an instance that can serve a request serves it");
  for (int i = 0; i < before; i++) c->deallocate(m + i, 1);
  void* q = c->allocate(1); ks_check(q == Crowd::mem[1], KS_PROP ": a request the instance cannot serve is served by a fresh one"); ks_check(!crowdGone[0], KS_PROP ": no instance with a live block is destroyed");
  bool z = c->owns(m + n - 1); ks_check(z, KS_PROP ": owns() is true for a live block of any instance"); ks_reach("served"); ks_reach("grew");
  for (int i = before; i < n; i++) { if (crowdGone[0]) ks_fail(KS_PROP ": no instance with a live block is destroyed"); c->deallocate(m + i, 1); }
  CHECK("B04", !crowdGone[1] , "no instance with a live block is destroyed");
  c->deallocate(q, 1); ks_reach("freed"); c->~C();
  ks_check(crowdGone[1], KS_PROP ": every instance is destroyed"); ks_check(ks_heap_live() == 0, KS_PROP ": the memory of every instance is released"); ks_reach("ended"); ks_reach("refused");
}
