// The properties every allocator and composition shares, on the compositions of comps.h.
// REACH: served
// REACH[A02,A03,B10,F01]: refused
#include "comps.h"
#ifndef KS_STEPS
#define KS_STEPS 3
#endif
struct Blk { void* p; size_t n; bool live; void* q; };

// --- A02, A05: alignment and ownership along any history
template<class C, int K> static void walk() {
  uint8_t foreign[8] = {}; void* fh = malloc(24); if (!fh) return;
  {
    C c; auto& a = c.get(); using A = std::remove_reference_t<decltype(a)>;
    Blk b[K]; int nb = 0, live = 0;
    for (int step = 0; step < K; step++) {
      int op = step == 0 ? 0 : (int)ks_choose("op", 1 + live);
      if (op == 0) {
        size_t n = anysize<C>(); void* q = a.allocate(n);
        if (!ks_split(q != nullptr)) { ks_reach("refused"); continue; }
        ks_reach("served");
        CHECK("A02", (addr(q) & (alignof(std::max_align_t) - 1)) == 0, "the block is aligned for max_align_t");
        if constexpr (ON("A05") && detail::has_owns_v<A>) CHECK("A05", ks_imp(n != 0, a.owns(q)), "a block just handed out is owned");
        b[nb++] = Blk{q, n, true}; live++;
      } else {
        int i = 0, k = op; for (;; i++) if (b[i].live && --k == 0) break;
        a.deallocate(b[i].p, b[i].n); b[i].live = false; live--;
      }
      if constexpr (ON("A05") && detail::has_owns_v<A>) {
        if (step == K - 1 || ks_tier()) {
          size_t d = ks_u64("d");
          for (int i = 0; i < nb; i++) if (b[i].live) CHECK("A05", ks_imp(d < b[i].n, a.owns((void*)(addr(b[i].p) + d))), "owns() is true for every address inside every live block");
          size_t f = ks_range("f", 0, 7); CHECK("A05", !a.owns(foreign + f), "owns() is false for an object elsewhere");
          size_t h = ks_range("h", 0, 23); CHECK("A05", !a.owns((char*)fh + h), "owns() is false for memory of another allocator");
          CHECK("A05", !a.owns(nullptr), "owns() is false for null");
          CHECK("A05", !a.owns((void*)~uintptr_t(0)), "owns() is false at the end of the address space");
        }
      }
    }
    for (int i = 0; i < nb; i++) if (b[i].live) a.deallocate(b[i].p, b[i].n);
  }
  free(fh);
}
// --- A03: a failed request changes nothing: c sees it, its twin d does not
template<class C, int K> static void twin() {
  if constexpr (C::Twin) {
    C c, d; auto& a = c.get(); auto& t = d.get(); using A = std::remove_reference_t<decltype(a)>;
    Blk b[K]; int nb = 0, live = 0, failed = 0;
    for (int step = 0; step < K; step++) {
      int op = step == 0 ? 0 : (int)ks_choose("op", 1 + live);
      if (op == 0) {
        size_t n = anysize<C>(); uint64_t h = ks_heap_live(); void* q = a.allocate(n);
        if (!ks_split(q != nullptr)) {
          ks_reach("refused");
          if (nb) CHECK("A03", ks_heap_live() <= h, "a failed request takes no system memory");
          else if (ks_heap_live() > h) { // until one is served, a request may set the allocator up, a repeated one may not grow it
            h = ks_heap_live(); void* q2 = a.allocate(n); CHECK("A03", q2 == nullptr && ks_heap_live() <= h, "a failed request takes no system memory");
          }
          failed++; continue;
        }
        ks_reach("served");
        if constexpr (detail::has_max_size_v<A>) CHECK("A03", n <= a.max_size(), "a request above max_size() is refused");
        CHECK("A03", there(q, n), "a block is never smaller than the request");
        void* q2 = t.allocate(n);
        CHECK("A03", q2 != nullptr, "requests succeed exactly as if the failed ones had never been made");
        if (!q2) return;
        b[nb++] = Blk{q, n, true, q2}; live++;
      } else {
        int i = 0, k = op; for (;; i++) if (b[i].live && --k == 0) break;
        a.deallocate(b[i].p, b[i].n); t.deallocate(b[i].q, b[i].n); b[i].live = false; live--;
      }
    }
    auto probe = [&] { size_t m = anysize<C>(); void* q = a.allocate(m); void* q2 = t.allocate(m); CHECK("A03", (q != nullptr) == (q2 != nullptr), "later requests are served exactly as if the failed ones had never been made"); if (ks_split(q != nullptr)) a.deallocate(q, m); if (ks_split(q2 != nullptr)) t.deallocate(q2, m); };
    // what is asked for next: at once, or after everything was given back in either order
    int when = failed ? (int)ks_choose("when", live > 1 ? 3 : live ? 2 : 1) : 1;
    if (failed && when == 0) probe();
    for (int j = 0; j < nb; j++) { int i = when == 1 ? j : nb - 1 - j; if (b[i].live) { a.deallocate(b[i].p, b[i].n); t.deallocate(b[i].q, b[i].n); } }
    if (failed && when) probe();
  } else { ks_reach("refused"); ks_reach("served"); }
  CHECK("A03", ks_heap_live() == 0, "nothing remains allocated");
}
// --- B10: the base allocators are recorders; every block goes back to them exactly once with its size
using M0 = Spy<0, REFUSE>;
template<class C, int K> static void giveback() {
#ifdef KS_PHANTOM
  if constexpr (!C::Sym) { ks_reach("served"); ks_reach("refused"); return; } // they write into the blocks
#endif
  {
    C c; auto& a = c.get(); Blk b[K]; int nb = 0, live = 0;
    for (int step = 0; step < K; step++) {
      int op = step == 0 ? 0 : (int)ks_choose("op", 1 + live);
      if (op == 0) {
        size_t n = anysize<C>(); void* q = a.allocate(n);
        if (!ks_split(q != nullptr)) { ks_reach("refused"); continue; }
        ks_reach("served");
        for (int i = 0; i < nb; i++) if (b[i].live) CHECK("B10", ks_or(ks_or(n == 0, b[i].n == 0), ks_or(addr(q) + n <= addr(b[i].p), addr(b[i].p) + b[i].n <= addr(q))), "live blocks never overlap");
        CHECK("B10", there(q, n), "the block has the requested size");
        b[nb++] = Blk{q, n, true}; live++;
      } else { int i = 0, k = op; for (;; i++) if (b[i].live && --k == 0) break; a.deallocate(b[i].p, b[i].n); b[i].live = false; live--; }
    }
    bool rev = ks_choose("reverse", 2);
    for (int j = 0; j < nb; j++) { int i = rev ? nb - 1 - j : j; if (b[i].live) a.deallocate(b[i].p, b[i].n); }
  }
  CHECK("B10", M0::s.nlive == 0, "every block of the base allocator was given back");
  CHECK("B10", ks_heap_live() == 0, "nothing remains allocated");
}
// --- B11: contents of live blocks survive everything.  One byte at an arbitrary position d of each block stands for all of them.
struct Mem { uint8_t* p; size_t n, d; uint8_t v; bool live; void fill() { d = ks_u64("d"); ks_assume(d < n); v = ks_u8("v"); p[d] = v; } bool same() const { return p[d] == v; } };
template<class C, int K> static void contents() {
  ks_symbolic_memory(1); ks_malloc_cap(384);
  C c; auto& a = c.get(); using A = std::remove_reference_t<decltype(a)>; Mem b[K]; int nb = 0, live = 0;
  for (int step = 0; step < K; step++) {
    int op = step == 0 ? 0 : (int)ks_choose("op", 1 + live);
    if (op == 0) {
      size_t n = anysize<C>(); if (!ks_split(n != 0)) continue;
      uint8_t* q = (uint8_t*)a.allocate(n); if (!ks_split(q != nullptr)) { ks_reach("refused"); continue; }
      ks_reach("served"); b[nb].p = q; b[nb].n = n; b[nb].live = true; b[nb].fill(); nb++; live++;
    } else { int i = 0, k = op; for (;; i++) if (b[i].live && --k == 0) break; a.deallocate(b[i].p, b[i].n); b[i].live = false; live--; }
    for (int i = 0; i < nb; i++) if (b[i].live) CHECK("B11", b[i].same(), "bytes of live blocks read back unchanged");
  }
  if constexpr (detail::has_owns_v<A>) for (int i = 0; i < nb; i++) if (b[i].live) a.owns(b[i].p);
  if constexpr (detail::has_max_size_v<A>) a.max_size();
  for (int i = 0; i < nb; i++) if (b[i].live) {
    a.deallocate(b[i].p, b[i].n); b[i].live = false;
    for (int j = i + 1; j < nb; j++) if (b[j].live) CHECK("B11", b[j].same(), "bytes of live blocks read back unchanged");
  }
}
// --- F01: the system refuses up to two requests, anywhere
template<class C, int K> static void exhausted() {
  ks_symbolic_memory(1); ks_malloc_cap(384);
  {
    C c; auto& a = c.get(); using A = std::remove_reference_t<decltype(a)>; Mem b[K]; int nb = 0, live = 0;
    bool fresh = false; { C probe; void* q = probe.get().allocate(8); fresh = q != nullptr; if (q) probe.get().deallocate(q, 8); }
    ks_malloc_may_fail(2);
    for (int step = 0; step < K; step++) {
      int op = step == 0 ? 0 : (int)ks_choose("op", 2 + live);
      if (op == 0) {
        size_t n = anysize<C>(); if (!ks_split(n != 0)) continue;
        uint8_t* q = (uint8_t*)a.allocate(n); if (!ks_split(q != nullptr)) { ks_reach("refused"); continue; }
        ks_reach("served"); b[nb].p = q; b[nb].n = n; b[nb].live = true; b[nb].fill(); nb++; live++;
      } else if (op == 1) {
        if constexpr (detail::has_max_size_v<A>) a.max_size();
        if constexpr (detail::has_owns_v<A>) { CHECK("F01", !a.owns(&nb), "owns() is false for an object elsewhere"); for (int i = 0; i < nb; i++) if (b[i].live) CHECK("F01", a.owns(b[i].p), "blocks obtained before stay owned"); }
      } else { int i = 0, k = op - 1; for (;; i++) if (b[i].live && --k == 0) break; a.deallocate(b[i].p, b[i].n); b[i].live = false; live--; }
      for (int i = 0; i < nb; i++) if (b[i].live) CHECK("F01", b[i].same(), "blocks obtained before keep their contents");
    }
    ks_malloc_may_fail(0);
    for (int i = 0; i < nb; i++) if (b[i].live) a.deallocate(b[i].p, b[i].n);
    void* q = a.allocate(8); CHECK("F01", !fresh || q != nullptr, "requests succeed again once memory is available"); if (q) a.deallocate(q, 8);
  }
  CHECK("F01", ks_heap_live() == 0, "nothing is leaked");
}
// ... the same over a longer run of menu sizes
template<class C> static void longfault() {
  constexpr int N = 6, R = 2; ks_fuel(20000000);
  static constexpr size_t Pat[][3] = {{16, 16, 16}, {24, 24, 24}, {40, 40, 40}, {64, 64, 64}, {8, 40, 100}};
  const size_t* pat = Pat[ks_choose("pattern", 5)]; uint8_t foreign = 0, tag = 1;
  {
    C c; auto& a = c.get(); using A = std::remove_reference_t<decltype(a)>; struct { uint8_t* p; size_t n; uint8_t v; bool live; } b[N + R]; int nb = 0;
    bool fresh = false; { C probe; void* q = probe.get().allocate(8); fresh = q != nullptr; if (q) probe.get().deallocate(q, 8); }
    ks_malloc_may_fail(2);
    auto sane = [&] {
      for (int i = 0; i < nb; i++) if (b[i].live) for (size_t k = 0; k < b[i].n; k++) if (b[i].p[k] != b[i].v) ks_fail(KS_PROP ": blocks obtained before keep their contents");
      if constexpr (detail::has_owns_v<A>) { CHECK("F01", !a.owns(&foreign), "owns() is false for an object elsewhere"); for (int i = 0; i < nb; i++) if (b[i].live) CHECK("F01", a.owns(b[i].p), "blocks obtained before stay owned"); }
      if constexpr (detail::has_max_size_v<A>) a.max_size();
    };
    auto take = [&](size_t n) { uint8_t* q = (uint8_t*)a.allocate(n); if (!q) { ks_reach("refused"); sane(); return; } ks_reach("served"); memset(q, tag, n); b[nb].p = q; b[nb].n = n; b[nb].v = tag++; b[nb].live = true; nb++; sane(); };
    for (int i = 0; i < N; i++) take(pat[i % 3]);
    int n = nb;
    if (n) { int rot = (int)ks_choose("rot", n), rev = (int)ks_choose("rev", 2), cnt = (int)ks_choose("count", n + 1);
      for (int i = 0; i < cnt; i++) { int j = rev ? (rot + n - i) % n : (rot + i) % n; a.deallocate(b[j].p, b[j].n); b[j].live = false; sane(); } }
    for (int i = 0; i < R; i++) take(pat[i]);
    ks_malloc_may_fail(0);
    for (int i = 0; i < nb; i++) if (b[i].live) a.deallocate(b[i].p, b[i].n);
    void* q = a.allocate(8); CHECK("F01", !fresh || q != nullptr, "requests succeed again once memory is available"); if (q) a.deallocate(q, 8);
  }
  CHECK("F01", ks_heap_live() == 0, "nothing is leaked"); ks_reach("refused");
}
using ML = Spy<1, 0>;
// --- all of them: many blocks of menu sizes, given back in any rotation of either order, taken again, with refused requests in between
template<class C> static void longrun() {
  constexpr int N = 10, R = 3; ks_fuel(20000000);
  static constexpr size_t Pat[][3] = {{8, 8, 8}, {16, 16, 16}, {24, 24, 24}, {40, 40, 40}, {64, 64, 64}, {8, 40, 8}, {64, 1, 17}, {100, 16, 33}};
  const size_t* pat = Pat[ks_choose("pattern", 8)];
  struct B { uint8_t* p; size_t n; uint8_t v; bool live; void* t; } b[N + R + 1]; int nb = 0; uint8_t foreign = 0; uint8_t tag = 1;
  {
    C c; auto& a = c.get(); using A = std::remove_reference_t<decltype(a)>; constexpr bool Tw = ON("A03") && C::Twin; C d; auto& t = d.get();
    auto same = [&] { if (ON("B11")) for (int i = 0; i < nb; i++) if (b[i].live) for (size_t k = 0; k < b[i].n; k++) if (b[i].p[k] != b[i].v) ks_fail(KS_PROP ": bytes of live blocks read back unchanged"); };
    auto take = [&](size_t n) {
      uint8_t* q = (uint8_t*)a.allocate(n);
      if constexpr (Tw) { void* z = t.allocate(n); b[nb].t = z; CHECK("A03", (z != nullptr) == (q != nullptr), "requests succeed exactly as if the failed ones had never been made"); }
      if (!q) { ks_reach("refused"); return; }
      ks_reach("served");
      CHECK("A02", (addr(q) & (alignof(std::max_align_t) - 1)) == 0, "the block is aligned for max_align_t");
      CHECK("B10", there(q, n), "the block has the requested size"); CHECK("A03", there(q, n), "a block is never smaller than the request");
      for (int i = 0; i < nb; i++) if (b[i].live) CHECK("B10", ks_or(addr(q) + n <= addr(b[i].p), addr(b[i].p) + b[i].n <= addr(q)), "live blocks never overlap");
      if (ON("B11")) memset(q, tag, n);
      b[nb].p = q; b[nb].n = n; b[nb].v = tag++; b[nb].live = true; nb++; same();
    };
    auto give = [&](int i) { a.deallocate(b[i].p, b[i].n); if constexpr (Tw) t.deallocate(b[i].t, b[i].n); b[i].live = false; same(); };
    auto owned = [&] {
      if constexpr (ON("A05") && detail::has_owns_v<A>) {
        for (int i = 0; i < nb; i++) if (b[i].live) { CHECK("A05", a.owns(b[i].p), "owns() is true for the first address of every live block"); CHECK("A05", a.owns(b[i].p + b[i].n - 1), "owns() is true for every address inside every live block"); }
        CHECK("A05", !a.owns(&foreign), "owns() is false for an object elsewhere"); CHECK("A05", !a.owns(nullptr), "owns() is false for null");
      }
    };
    auto refuse = [&] { if (ON("A03") || ON("B11")) { void* q = a.allocate(~size_t(0) - 60); CHECK("A03", q == nullptr, "a request nobody can serve is refused"); q = a.allocate(5000); CHECK("A03", q == nullptr, "a request nobody can serve is refused"); ks_reach("refused"); } };
    for (int i = 0; i < N; i++) { take(pat[i % 3]); if (i % 4 == 1) refuse(); }
    owned(); int n = nb;
    if (n) {
      int rot = (int)ks_choose("rot", n), rev = (int)ks_choose("rev", 2), cnt = (int)ks_choose("count", n + 1);
      for (int i = 0; i < cnt; i++) { give(rev ? (rot + n - i) % n : (rot + i) % n); if (i % 4 == 2) refuse(); }
      owned();
      for (int i = 0; i < R; i++) take(pat[i]);
      owned();
    }
    int m = nb, from = m ? (int)ks_choose("from", 3) * (m - 1) / 2 : 0, dir = (int)ks_choose("dir", 2);
    for (int i = 0; i < m; i++) { int j = dir ? (from + m - i) % m : (from + i) % m; if (b[j].live) give(j); if (i == m / 2 && nb < N + R + 1) take(pat[2]); }
    owned(); for (int i = m; i < nb; i++) give(i);
    owned();
  }
  ks_reach("refused");
  if (ON("B10")) { CHECK("B10", ML::s.nlive == 0, "every block of the base allocator was given back"); }
  CHECK("B10", ks_heap_live() == 0, "nothing remains allocated"); CHECK("A03", ks_heap_live() == 0, "nothing remains allocated"); CHECK("F01", ks_heap_live() == 0, "nothing is leaked");
}
#if defined(SET_WALK)
#define X(name, ...) KS_ENTRY(walk_##name) { walk<__VA_ARGS__, KS_STEPS>(); }
COMPS(X, mallocator)
KS_ENTRY(walk_null) {
  null_allocator a; size_t n = ks_u64("n"); CHECK("A02", a.allocate(n) == nullptr, "null_allocator serves nothing");
  void* x = (void*)ks_u64("x"); CHECK("A05", a.owns(x) == (x == nullptr), "null_allocator owns nothing but null");
  a.deallocate(nullptr, n); ks_reach("served"); ks_reach("refused");
}
#define Y(name, ...) KS_ENTRY(long_##name) { longrun<__VA_ARGS__>(); }
COMPS(Y, ML)
#elif defined(SET_TWIN)
#define Y(name, ...) KS_ENTRY(long_##name) { longrun<__VA_ARGS__>(); }
COMPS(Y, ML)
#define X(name, ...) KS_ENTRY(twin_##name) { twin<__VA_ARGS__, KS_STEPS>(); }
COMPS(X, mallocator)
KS_ENTRY(twin_null) { null_allocator a; fallback<null_allocator, null_allocator> f; size_t n = ks_u64("n"); CHECK("A03", a.allocate(n) == nullptr && f.allocate(n) == nullptr, "nothing is served"); ks_reach("served"); ks_reach("refused"); }
// max_size() of an allocator that has served nothing yet
KS_ENTRY(fresh_max) { cascading<linear_allocator<64>> c; CHECK("A03", c.max_size() == 64, "max_size() of a fresh cascading is its instance's"); size_t n = ks_u64("n"); void* p = c.allocate(n); if (ks_split(p != nullptr)) { CHECK("A03", n <= 64, "within max_size()"); c.deallocate(p, n); } ks_reach("served"); ks_reach("refused"); }
#elif defined(SET_GIVE)
#define X(name, ...) KS_ENTRY(give_##name) { giveback<__VA_ARGS__, KS_STEPS>(); }
COMPS(X, M0)

#define Y(name, ...) KS_ENTRY(long_##name) { longrun<__VA_ARGS__>(); }
COMPS(Y, ML)
#elif defined(SET_CONTENTS)
#define X(name, ...) KS_ENTRY(contents_##name) { contents<__VA_ARGS__, KS_STEPS>(); }
COMPS_LIGHT(X, mallocator)
#define Y(name, ...) KS_ENTRY(long_##name) { longrun<__VA_ARGS__>(); }
COMPS(Y, ML)
#elif defined(SET_FAULT)
#define X(name, ...) KS_ENTRY(fault_##name) { exhausted<__VA_ARGS__, KS_STEPS>(); }
COMPS_LIGHT(X, mallocator)
#define Y(name, ...) KS_ENTRY(long_##name) { longfault<__VA_ARGS__>(); }
COMPS(Y, mallocator)
template<class S> static void handle() {
  ks_malloc_may_fail(2);
  { S s; S t(s); void* p = s.allocate(8); void* q = t.allocate(40); 
    CHECK("F01", !s.owns(&p), "owns() is false for an object elsewhere"); s.max_size(); CHECK("F01", s == t && !(s != t), "copies stay equal");
    S u; u = s; S v(std::move(t)); if (p) { ks_reach("served"); u.deallocate(p, 8); } else ks_reach("refused"); if (q) v.deallocate(q, 40); }
  CHECK("F01", ks_heap_live() == 0, "nothing is leaked");
}
KS_ENTRY(fault_handle_shared) { handle<shared<linear_allocator<64>>>(); }
KS_ENTRY(fault_handle_atomic) { handle<atomic_shared<cascading<linear_allocator<64>>>>(); }
#endif
