// shared and atomic_shared handles (one thread): who keeps the wrapped allocator alive, and for how long.
// REACH: used ended
#include "spy.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 5
#endif
constexpr int NA = KS_STEPS + 5;
static SpyS st[NA]; static int made = 0; static bool gone[NA];
struct Core {
  int id;
  Core() { id = made++; } 
  explicit Core(int tag) { id = made++; if (tag != 42) ks_fail(KS_PROP ": constructor arguments arrive unchanged"); }
  Core(const Core&) = delete;
  ~Core() { if (gone[id]) ks_fail(KS_PROP ": the wrapped allocator is destroyed twice"); gone[id] = true; st[id].dead = true; }
  bool operator==(const Core& o) const noexcept { return id == o.id; }
  bool operator!=(const Core& o) const noexcept { return id != o.id; }
  void* allocate(size_t n) noexcept { return st[id].allocate(n, false); }
  void deallocate(void* p, size_t n) noexcept { st[id].deallocate(p, n); }
  bool owns(void* p) const noexcept { if (st[id].dead) ks_fail(KS_PROP ": a destroyed allocator is used"); return st[id].has(p); }
  size_t max_size() const noexcept { if (st[id].dead) ks_fail(KS_PROP ": a destroyed allocator is used"); return 77 + id; }
};
constexpr int H = 3;
template<class S, int K> static void history() {
  Raw<S> r[H]; bool exist[H] = {}; int ref[H]; // ref: wrapped allocator, -1 moved from
  auto count = [&](int id) { int c = 0; for (int i = 0; i < H; i++) c += exist[i] && ref[i] == id; return c; };
  auto check = [&]() {
    for (int i = 0; i < made; i++) ks_check(gone[i] == (count(i) == 0), KS_PROP ": the wrapped allocator lives exactly as long as some handle refers to it");
    for (int i = 0; i < H; i++) if (exist[i] && ref[i] >= 0) {
      S& s = *r[i].p();
      ks_check(s.get_allocator().id == ref[i], KS_PROP ": every handle reaches the allocator it was made from");
      ks_check(s.max_size() == (size_t)(77 + ref[i]), KS_PROP ": the allocator is usable through every handle");
      for (int j = 0; j < i; j++) if (exist[j] && ref[j] >= 0) { bool e = s == *r[j].p(), n = s != *r[j].p(); CHECK("B08", e == (ref[i] == ref[j]), "handles are equal exactly when they share an allocator"); CHECK("B08", n == !e, "== and != are opposite"); }
    }
  };
  new (r[0].p()) S(); exist[0] = true; ref[0] = 0;
  check();
  for (int step = 0; step < K; step++) {
    // one choice among all operations possible now (unused handle slots are alike: the first one is taken)
    struct { int op, i, j; } ops[64]; int no = 0; bool slot = false;
    for (int i = 0; i < H; i++) {
      if (exist[i]) {
        ops[no++] = {0, i, 0}; if (ref[i] >= 0) ops[no++] = {1, i, 0};
        for (int j = 0; j < H; j++) if (exist[j]) { ops[no++] = {2, i, j}; ops[no++] = {3, i, j}; }
      } else if (!slot) {
        slot = true; ops[no++] = {4, i, 0}; ops[no++] = {5, i, 0};
        for (int j = 0; j < H; j++) if (exist[j]) { ops[no++] = {6, i, j}; ops[no++] = {7, i, j}; }
      }
    }
    int o = (int)ks_choose("op", no), i = ops[o].i, j = ops[o].j; S* s = r[i].p();
    switch (ops[o].op) {
    case 0: s->~S(); exist[i] = false; break;
    case 1: {
        size_t n = ks_u64("n"); int as = st[ref[i]].asks;
        void* p = s->allocate(n);
        CHECK("B08", st[ref[i]].asks == as + 1 && st[ref[i]].lastN == n && st[ref[i]].lastP == p, "allocate is passed on once, unchanged");
        if (ks_split(p != nullptr)) {
          ks_reach("used");
          // give it back through any handle that shares the allocator
          int js[H], nj = 0; for (int k = 0; k < H; k++) if (exist[k] && ref[k] == ref[i]) js[nj++] = k;
          int k = js[ks_choose("via", nj)];
          ks_check(r[k].p()->owns(p), KS_PROP ": the same allocator is seen through every copy");
          r[k].p()->deallocate(p, n);
          ks_check(st[ref[i]].nlive == 0, KS_PROP ": the same allocator is reached through every copy");
        }
        break; }
    case 2: *s = *r[j].p(); ref[i] = ref[j]; break;
    case 3: *s = std::move(*r[j].p()); if (i != j) { ref[i] = ref[j]; ref[j] = -1; } break;
    case 4: new (s) S(); exist[i] = true; ref[i] = made - 1; break;
    case 5: new (s) S(42); exist[i] = true; ref[i] = made - 1; break;
    case 6: new (s) S(*r[j].p()); exist[i] = true; ref[i] = ref[j]; break;
    case 7: new (s) S(std::move(*r[j].p())); exist[i] = true; ref[i] = ref[j]; ref[j] = -1; break;
    }
    check();
  }
  for (int i = 0; i < H; i++) if (exist[i]) { r[i].p()->~S(); exist[i] = false; }
  check();
  for (int i = 0; i < made; i++) ks_check(gone[i], KS_PROP ": the wrapped allocator is destroyed when the last handle goes");
  ks_check(ks_heap_live() == 0, KS_PROP ": the wrapped allocator's memory is released exactly once");
  ks_reach("ended");
}
KS_ENTRY(plain) { history<shared<Core>, KS_STEPS>(); }
KS_ENTRY(atomic) { history<atomic_shared<Core>, KS_STEPS>(); }
// many handles: the count does not lose track
template<class S> static void many() {
  constexpr int N = 70000; ks_fuel(60000000);
  static Raw<S> r[N]; static constexpr int M[] = {100, 128, 256, 300, 32768, 65536, N};
  int n = M[ks_choose("handles", 7)], how = (int)ks_choose("how", 2);
  new (r[0].p()) S();
  for (int i = 1; i < n; i++) if (how) { new (r[i].p()) S(*r[i - 1].p()); } else { new (r[i].p()) S(*r[0].p()); }
  int last = (int)ks_choose("last", 3); int k = last == 0 ? 0 : last == 1 ? n - 1 : n / 2;
  for (int i = 0; i < n; i++) if (i != k) { r[i].p()->~S(); if (gone[0]) ks_fail(KS_PROP ": alive while a handle exists"); }
  ks_check(r[k].p()->max_size() == 77, KS_PROP ": usable through the last handle"); ks_reach("used");
  r[k].p()->~S(); ks_check(gone[0], KS_PROP ": destroyed with the last handle"); ks_check(ks_heap_live() == 0, KS_PROP ": released"); ks_reach("ended");
}
KS_ENTRY(many) { many<shared<Core>>(); }
KS_ENTRY(many_atomic) { many<atomic_shared<Core>>(); }
// typed handles rebind to other value types and keep the same allocator
KS_ENTRY(rebound) {
  using A = type_allocator<uint64_t, shared<Core>>; using B = A::rebind<char>::other;
  Raw<A> ra; Raw<B> rb; A* a = new (ra.p()) A(); B* b = new (rb.p()) B(*a);
  ks_check(*b == *a && !(*b != *a), KS_PROP ": a rebound copy is equal"); ks_check(made == 1, KS_PROP ": a rebound copy shares the allocator");
  size_t n = ks_range("n", 1, 30); uint64_t* p = a->allocate(n); ks_check(st[0].lastN == 8 * n && st[0].nlive == 1, KS_PROP ": reaches the shared allocator");
  bool f = ks_choose("first", 2);
  if (f) { B c(std::move(*b)); A d(c); a->~A(); ks_check(!gone[0], KS_PROP ": alive while a rebound handle exists"); d.deallocate(p, n); }
  else { A c(std::move(*a)); c.deallocate(p, n); a->~A(); ks_check(!gone[0], KS_PROP ": alive while a rebound handle exists"); }
  b->~B();
  ks_check(gone[0] && ks_heap_live() == 0, KS_PROP ": destroyed with the last handle"); ks_reach("used"); ks_reach("ended");
}
