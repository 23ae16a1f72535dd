// Threads: every schedule (up to the preemption bound) of short programs on one threaded or atomic_shared allocator.
// All inputs are chosen before the threads start. A thread keeps what it sees in its own record; the main thread judges
// after the join. Data races are detected from happens-before (vector clocks), so a missing lock is seen in any schedule.
// REACH[T01]: both served
// REACH[T02]: done last-in-thread
#include "common.h"
#include <cstdlib>
#include <sched.h>
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;
#ifndef REST
#define REST 1
#endif
#ifndef KS_OPS
#define KS_OPS 2
#endif
#ifdef SET_LOCK
// A wrapped allocator that notices overlapping calls and counts them.
template<class A> struct Excl {
  A a; mutable int inside = 0; mutable int calls = 0;
  struct In { const Excl& e; In(const Excl& x) : e(x) { ks_check(e.inside == 0, "T01: two calls into the wrapped allocator overlap"); e.inside = 1; e.calls++; sched_yield(); } ~In() { ks_check(e.inside == 1, "T01: two calls into the wrapped allocator overlap"); e.inside = 0; } };
  bool operator==(const Excl& o) const { return a == o.a; }
  bool operator!=(const Excl& o) const { return a != o.a; }
  void* allocate(size_t n) { In i(*this); return a.allocate(n); }
  void deallocate(void* p, size_t n) { In i(*this); a.deallocate(p, n); }
  template<class B = A> auto owns(void* p) const -> decltype(std::declval<const B&>().owns(p)) { In i(*this); return a.owns(p); }
  template<class B = A> auto max_size() const -> decltype(std::declval<const B&>().max_size()) { return a.max_size(); }
};
template<class W, class = void> struct HasOwns : std::false_type {};
template<class W> struct HasOwns<W, std::void_t<decltype(std::declval<const W&>().owns(nullptr))>> : std::true_type {};
template<class W, class = void> struct HasMax : std::false_type {};
template<class W> struct HasMax<W, std::void_t<decltype(std::declval<const W&>().max_size())>> : std::true_type {};
enum { ALLOC_FREE, ALLOC_KEEP, ASK, COMPARE };
template<class W, bool Sym> struct Prog {
  W* w; W* other; bool same; unsigned char id; void* pre; size_t preN; int op[KS_OPS]; size_t n[KS_OPS];
  void* kept[KS_OPS]; size_t keptN[KS_OPS]; int nk = 0; int calls = 0; bool ok = true, served = false, agree = true;
  void run() {
    for (int k = 0; k < KS_OPS; k++) {
      if (op[k] < 0) continue;
      if (op[k] == ALLOC_FREE || op[k] == ALLOC_KEEP) {
        unsigned char* p = (unsigned char*)w->allocate(n[k]); calls++;
        if (!ks_split(p != nullptr)) continue;
        served = true;
        if (!Sym) { p[0] = id; p[n[k] - 1] = id; sched_yield(); ok &= p[0] == id; ok &= p[n[k] - 1] == id; }
        if (op[k] == ALLOC_FREE) { w->deallocate((char*)p, n[k]); calls++; } else { kept[nk] = p; keptN[nk++] = n[k]; }
      } else if (op[k] == ASK) {
        if constexpr (HasOwns<W>::value) { if (pre) { ok &= w->owns((char*)pre); calls++; } }
        if constexpr (HasMax<W>::value) { size_t m = w->max_size(); ok &= m >= preN; }
      } else if (op[k] == COMPARE) { bool e = *w == *other; bool d = *w != *other; agree &= e == same; agree &= d != same; }
    }
    if (pre) { w->deallocate((char*)pre, preN); calls++; }
  }
};
template<class P> static void* runProg(void* p) { ((P*)p)->run(); return nullptr; }

static size_t g_big = 100; static bool g_three = false;
// symbolic sizes: blocks are not written to, their extents are compared by the solver
template<bool Sym> static size_t pick() { if constexpr (Sym) return ks_range("size", 0, 96); else { return ks_choose("size", 2) ? 16 : g_big; } }
template<bool Sym, class W, int T, class C> static void threads(W (&w)[T], C calls, int first, int rest, W* other = nullptr) {
  static Prog<W, Sym> pr[T]; int before = calls(), total = 0;
  for (int t = 0; t < T; t++) { Prog<W, Sym>& p = pr[t]; p.w = &w[t]; p.other = other ? other : &w[(t + 1) % T]; p.id = (unsigned char)(t + 1); p.pre = nullptr; p.preN = 0; p.same = !other;
    if (t == 0 && ks_choose("pre", 2)) { p.preN = 16; p.pre = w[t].allocate(16); total++; if (!p.pre) ks_fail("T01: harness: no room"); }
    for (int k = 0; k < KS_OPS; k++) { p.op[k] = k < (t ? rest : first) ? (int)ks_choose("op", g_three ? 3 : 4) : -1; if (p.op[k] == ALLOC_FREE || p.op[k] == ALLOC_KEEP) p.n[k] = pick<Sym>(); } }
  int h[T]; for (int t = 0; t < T; t++) h[t] = ks_spawn(runProg<Prog<W, Sym>>, &pr[t]);
  for (int t = 0; t < T; t++) ks_join(h[t]);
  int served = 0;
  for (int t = 0; t < T; t++) { total += pr[t].calls; served += pr[t].served;
    CHECK("T01", pr[t].ok, "a block keeps its contents while it is live, is owned, and max_size is right"); CHECK("T01", pr[t].agree, "comparisons agree"); }
  CHECK("T01", calls() >= before + total, "no call into the wrapped allocator is lost");
  for (int t = 0; t < T; t++) for (int k = 0; k < pr[t].nk; k++) for (int u = t; u < T; u++) for (int l = u == t ? k + 1 : 0; l < pr[u].nk; l++) {
    uintptr_t a = addr(pr[t].kept[k]), b = addr(pr[u].kept[l]); CHECK("T01", ks_or(ks_or(pr[t].keptN[k] == 0, pr[u].keptN[l] == 0), ks_or(a + pr[t].keptN[k] <= b, b + pr[u].keptN[l] <= a)), "live blocks are disjoint"); }
  for (int t = 0; t < T; t++) for (int k = 0; k < pr[t].nk; k++) { unsigned char* p = (unsigned char*)pr[t].kept[k]; if (!Sym) CHECK("T01", p[0] == pr[t].id && p[pr[t].keptN[k] - 1] == pr[t].id, "live blocks keep their contents"); w[t].deallocate((char*)p, pr[t].keptN[k]); }
  if (served) ks_reach("served"); if (served == T) ks_reach("both");
}
using Lin = Excl<linear_allocator<128>>;
// the region is whole again once everything was given back in whatever order
template<class W> static void whole(W& w, size_t n) { void* p = w.allocate(n); CHECK("T01", p != nullptr, "after all blocks are returned the allocator is as good as new"); if (p) w.deallocate((char*)p, n); }
KS_ENTRY(lock_reference) { using T = threaded<Lin>; T t, t2; using W = reference<T>; { W w[2] = {W(t), W(t)}; threads<false>(w, [&] { return t.get_allocator().calls; }, 2, REST); } whole(t, 128); }
KS_ENTRY(lock_other) { using T = threaded<Lin>; T t, t2; using W = reference<T>; { W o(t2); W w[2] = {W(t), W(t)}; threads<false>(w, [&] { return t.get_allocator().calls; }, 1, 1, &o); } whole(t, 128); whole(t2, 128); }
KS_ENTRY(lock_sizes) { using T = threaded<Lin>; T t; using W = reference<T>; { W w[2] = {W(t), W(t)}; threads<true>(w, [&] { return t.get_allocator().calls; }, 1, 1); } whole(t, 128); }
KS_ENTRY(lock_shared) { using W = atomic_shared<threaded<Excl<freelist<0, 16, mallocator>>>>; { W a; { W w[2] = {a, a}; threads<false>(w, [&] { return a.get_allocator().get_allocator().calls; }, 2, REST); } } CHECK("T01", ks_heap_live() == 0, "everything is released"); }
KS_ENTRY(lock_typed) { using W = type_shared_threaded<char, Lin>; { W a; { W w[2] = {a, a}; threads<false>(w, [&] { return a.get_allocator().get_allocator().get_allocator().calls; }, 1, 1); } whole(a, 128); } CHECK("T01", ks_heap_live() == 0, "everything is released"); }
using Tree = Excl<segragator<16, freelist<0, 16, mallocator>, fallback<linear_allocator<64>, mallocator>>>;
KS_ENTRY(lock_global) { g_big = 40; using W = global<threaded<Tree>>; { W w[2]; threads<false>(w, [&] { return w[0].get_allocator().get_allocator().calls; }, 2, REST); } }
KS_ENTRY(lock_cascading) { using W = atomic_shared<threaded<Excl<cascading<linear_allocator<128>>>>>; { W a; { W w[2] = {a, a}; threads<false>(w, [&] { return a.get_allocator().get_allocator().calls; }, 2, REST); } } CHECK("T01", ks_heap_live() == 0, "everything is released"); }
KS_ENTRY(lock_three) { g_three = true; g_big = 16; using T = threaded<Lin>; T t; using W = reference<T>; { W w[3] = {W(t), W(t), W(t)}; threads<false>(w, [&] { return t.get_allocator().calls; }, 1, 1); } whole(t, 128); }
#endif
#ifdef SET_HANDLES
// The wrapped allocator remembers outside of itself whether it lives; reads and writes of that are ordinary memory
// accesses, so an unsynchronised destruction is a data race even where the schedule happens to be harmless.
static int alive[4], born = 0, ended[4], servedBytes = 0;
struct Core {
  int id; int blocks = 0;
  Core() : id(born++) { alive[id] = 1; }
  Core(const Core&) = delete;
  ~Core() { ks_check(alive[id] == 1, "T02: the wrapped allocator is destroyed once"); alive[id] = 0; ended[id]++; ks_check(blocks == 0, "T02: the wrapped allocator is destroyed after every use"); }
  void use() const { ks_check(alive[id] == 1, "T02: a destroyed allocator is used"); }
  bool operator==(const Core& o) const { return id == o.id; }
  bool operator!=(const Core& o) const { return id != o.id; }
  void* allocate(size_t n) { use(); void* p = malloc(n); if (ks_split(p != nullptr)) blocks++; return p; }
  void deallocate(void* p, size_t) { use(); blocks--; free(p); }
  bool owns(void*) const { use(); return true; }
  size_t max_size() const { use(); return 77; }
};
#if defined(ALIAS) && ALIAS == 1
using S = type_shared_threaded<unsigned char, Core>;
#elif defined(ALIAS)
using S = type_atomic_shared<unsigned char, threaded<Core>>;
#else
using S = atomic_shared<threaded<Core>>;
#endif
enum { COPY, COPY_ROOT, ASSIGN_OTHER, ASSIGN_ROOT, MOVE, MOVE_ASSIGN, SELF, USE, NOPS };
static S* g_root;
#ifdef ALIAS
static int idOf(S& s) { return s.get_allocator().get_allocator().get_allocator().id; }
#else
static int idOf(S& s) { return s.get_allocator().get_allocator().id; }
#endif
// a use of any size: the block is the thread's own and keeps what is written to it
static bool touch(S& s, size_t n, unsigned char v) { unsigned char* p = (unsigned char*)s.allocate(n); if (!ks_split(p != nullptr)) return true; *p = v; sched_yield(); bool ok = *p == v; s.deallocate(p, n); return ok; }
struct HProg { Raw<S> a, b; int op[KS_OPS]; size_t n; unsigned char v; bool moved = false; bool ok = true; bool last = false;
  void run() {
    S* s = a.p();
    for (int k = 0; k < KS_OPS; k++) {
      if (op[k] < 0 || moved) continue;
      int id = idOf(*s);
      switch (op[k]) {
        case COPY: { S c(*s); ok &= idOf(c) == id; ok &= c.max_size() == 77; break; }
        case COPY_ROOT: { S c(*(const S*)g_root); ok &= c.max_size() == 77; break; }
        case ASSIGN_OTHER: { *s = *b.p(); ok &= idOf(*s) == idOf(*b.p()); break; }
        case ASSIGN_ROOT: { *s = *(const S*)g_root; ok &= idOf(*s) == idOf(*g_root); break; }
        case MOVE: { S c(std::move(*s)); ok &= idOf(c) == id; ok &= touch(c, n, v); moved = true; break; }
        case MOVE_ASSIGN: { S c(*s); *s = std::move(c); ok &= idOf(*s) == id; break; }
        case SELF: { S& r = *s; *s = r; ok &= idOf(*s) == id; break; }
        case USE: ok &= touch(*s, n, v); break;
      }
      if (!moved) ok &= s->max_size() == 77;
    }
    s->~S(); b.p()->~S();
  }
};
static HProg hp[3];
static void* runH(void* p) { ((HProg*)p)->run(); return nullptr; }
// T threads; share: all threads start with a handle to allocator 0, and own another to allocator 1
static void handles(int T, int first, int rest, bool withRoot, int nops) {
  Raw<S> root, oth; new (root.p()) S(); new (oth.p()) S(); g_root = root.p();
  for (int t = 0; t < T; t++) { new (hp[t].a.p()) S(*root.p()); new (hp[t].b.p()) S(*oth.p()); hp[t].n = ks_range("n", 1, ~0ull); hp[t].v = ks_u8("v");
    for (int k = 0; k < KS_OPS; k++) { hp[t].op[k] = -1; if (k >= (t ? rest : first)) continue; int o = (int)ks_choose("op", nops); if (!withRoot && (o == COPY_ROOT || o == ASSIGN_ROOT)) o = -1; hp[t].op[k] = o; } }
  if (!withRoot) root.p()->~S(); // the threads hold the last handles
  oth.p()->~S();
  int h[3]; for (int t = 0; t < T; t++) h[t] = ks_spawn(runH, &hp[t]);
  size_t n = ks_range("n", 1, 200); unsigned char v = ks_u8("v");
  if (withRoot) CHECK("T02", touch(*root.p(), n, v), "a block keeps its contents");
  for (int t = 0; t < T; t++) ks_join(h[t]);
  for (int t = 0; t < T; t++) CHECK("T02", hp[t].ok, "every handle reaches the allocator it was made from");
  if (withRoot) { CHECK("T02", alive[0] == 1, "the allocator lives as long as a handle does"); CHECK("T02", touch(*root.p(), n, v), "a block keeps its contents"); root.p()->~S(); } else ks_reach("last-in-thread");
  for (int i = 0; i < born; i++) CHECK("T02", ended[i] == 1, "every wrapped allocator is destroyed exactly once");
  CHECK("T02", ks_heap_live() == 0, "its memory is released");
  ks_reach("done");
}
#ifdef ALIAS
KS_ENTRY(handles_alias) { handles(2, 1, 1, false, NOPS); }
#else
KS_ENTRY(handles_root) { handles(2, 2, REST, true, NOPS); }
KS_ENTRY(handles_last) { handles(2, 2, REST, false, NOPS); }
KS_ENTRY(handles_three) { handles(3, 1, 1, false, 4); }
#endif
#endif
