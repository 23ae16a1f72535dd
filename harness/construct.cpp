// construct and destroy through composites: once, at the right place, through the member that owns the object.
// REACH: done
#include "spy.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
#include <memory>
using namespace ktl;
// notes every construction and destruction
struct Log { int made = 0, died = 0; const void* at = nullptr; const void* diedAt = nullptr; };
static Log g;
struct MoveArg { uint32_t v; bool moved = false; explicit MoveArg(uint32_t x) : v(x) {} MoveArg(MoveArg&& o) : v(o.v) { o.moved = true; } 
#ifdef MOVEONLY
  MoveArg(const MoveArg&) = delete;
#else
  MoveArg(const MoveArg& o) : v(o.v) {}
#endif
};
struct Obj {
  uint32_t a; uint32_t* ref; uint32_t m; char pad[12];
  Obj(uint32_t x, uint32_t& r, MoveArg&& y) : a(x), ref(&r), m(MoveArg(std::move(y)).v) { g.made++; g.at = this; }
#ifndef MOVEONLY
  Obj(uint32_t x, uint32_t& r, const MoveArg& y) : a(x), ref(&r), m(y.v) { g.made++; g.at = this; } // must not be chosen
#endif
  Obj(const Obj&) = delete;
  ~Obj() { g.died++; g.diedAt = this; }
};
static constexpr size_t N = sizeof(Obj);
// construct and destroy *p through a; owner: the spy that must see it (or null: plain), others must not
template<class A> static void life(A& a, Obj* p, SpyS* owner, bool cons, bool dest, SpyS* const* all, int n) {
  Log l = g; int c[8], d[8], as[8], fr[8]; for (int i = 0; i < n; i++) { c[i] = all[i]->cons; d[i] = all[i]->dest; as[i] = all[i]->asks; fr[i] = all[i]->frees; }
  uint32_t x = ks_u32("x"), r = 0; uint32_t y = ks_u32("y"); MoveArg ma(y);
  using T = typename std::allocator_traits<type_allocator<Obj, reference<A>>>; type_allocator<Obj, reference<A>> ta{reference<A>(a)};
  bool typed = ks_choose("through", 2);
  if (typed) T::construct(ta, p, x, r, std::move(ma)); else a.construct(p, x, r, std::move(ma));
  CHECK("B12", g.made == l.made + 1 && g.died == l.died, "exactly one object is created");
  CHECK("B12", g.at == p, "at the given address");
  CHECK("B12", p->a == x && p->ref == &r && p->m == y && ma.moved, "from exactly the given arguments");
  for (int i = 0; i < n; i++) { CHECK("B12", all[i]->cons - c[i] == (all[i] == owner && cons), "through the construct of the member that owns it, and no other"); CHECK("B12", all[i]->dest == d[i] && all[i]->asks == as[i] && all[i]->frees == fr[i], "nothing else happens to any member"); }
  if (typed) T::destroy(ta, p); else a.destroy(p);
  CHECK("B12", g.died == l.died + 1 && g.made == l.made + 1, "exactly one object is destroyed");
  CHECK("B12", g.diedAt == p, "the given one");
  for (int i = 0; i < n; i++) { CHECK("B12", all[i]->dest - d[i] == (all[i] == owner && dest), "through the destroy of the member that owns it, and no other"); CHECK("B12", all[i]->cons - c[i] == (all[i] == owner && cons) && all[i]->asks == as[i] && all[i]->frees == fr[i], "nothing else happens to any member"); }
  ks_reach("done");
}
constexpr unsigned CD = CONS | DEST;
template<unsigned FP, unsigned FF> static void fb() {
  using A = Spy<0, OWNS | FP>; using B = Spy<1, OWNS | FF>; fallback<A, B> f; SpyS* all[] = {&A::s, &B::s};
  A pa; B pb; Obj* p = (Obj*)pa.allocate(N); Obj* q = (Obj*)pb.allocate(N); if (!p || !q) return;
  Raw<Obj> loose; // memory of neither: the fallback's responsibility
  switch (ks_choose("where", 3)) { case 0: life(f, p, &A::s, FP & CONS, FP & DEST, all, 2); break; case 1: life(f, q, &B::s, FF & CONS, FF & DEST, all, 2); break; case 2: if (!(FF & CD) || (FF & CD) == CD) life(f, loose.p(), &B::s, FF & CONS, FF & DEST, all, 2); break; }
}
KS_ENTRY(fallback_both) { fb<CD, CD>(); }
KS_ENTRY(fallback_first) { fb<CD, 0>(); }
KS_ENTRY(fallback_second) { fb<0, CD>(); }
KS_ENTRY(fallback_mixed) { if (ks_choose("mix", 2)) fb<CONS, DEST>(); else fb<DEST, CONS>(); }
template<unsigned FP, unsigned FF> static void sg() {
  using A = Spy<0, OWNS | FP>; using B = Spy<1, OWNS | FF>; segragator<16, A, B> f; SpyS* all[] = {&A::s, &B::s};
  A pa; B pb; Obj* p = (Obj*)pa.allocate(N); Obj* q = (Obj*)pb.allocate(N); if (!p || !q) return;
  if (ks_choose("where", 2)) life(f, p, &A::s, FP & CONS, FP & DEST, all, 2); else life(f, q, &B::s, FF & CONS, FF & DEST, all, 2);
}
KS_ENTRY(segragator_both) { sg<CD, CD>(); }
KS_ENTRY(segragator_first) { sg<CD, 0>(); }
KS_ENTRY(segragator_second) { sg<0, CD>(); }
KS_ENTRY(segragator_mixed) { if (ks_choose("mix", 2)) sg<CONS, DEST>(); else sg<DEST, CONS>(); }
KS_ENTRY(freelist_over) { using A = Spy<0, OWNS | CD>; freelist<0, 64, A> f; SpyS* all[] = {&A::s}; Obj* p = (Obj*)f.allocate(N); if (!p) return; life(f, p, &A::s, true, true, all, 1); f.deallocate(p, N); Obj* q = (Obj*)f.allocate(N); life(f, q, &A::s, true, true, all, 1); f.deallocate(q, N); }
struct Nul { Nul& operator<<(const char*) { return *this; } Nul& operator<<(unsigned long) { return *this; } Nul& operator<<(long) { return *this; } Nul& operator<<(const void*) { return *this; } };
KS_ENTRY(overflow_with) { using A = Spy<0, OWNS | CD>; Nul os; overflow<A, Nul> f(os); SpyS* all[] = {&A::s}; Obj* p = (Obj*)f.allocate(N); if (!p) return; life(f, p, &A::s, true, true, all, 1); f.deallocate(p, N); }
KS_ENTRY(overflow_plain) { using A = Spy<0, OWNS>; Nul os; overflow<A, Nul> f(os); SpyS* all[] = {&A::s}; Obj* p = (Obj*)f.allocate(N); if (!p) return; life(f, p, nullptr, false, false, all, 1); f.deallocate(p, N); }
KS_ENTRY(overflow_mixed) { using A = Spy<0, OWNS | CONS>; using B = Spy<1, OWNS | DEST>; Nul os; SpyS* all[] = {&A::s, &B::s}; if (ks_choose("mix", 2)) { overflow<A, Nul> f(os); Obj* p = (Obj*)f.allocate(N); if (!p) return; life(f, p, &A::s, true, false, all, 2); f.deallocate(p, N); } else { overflow<B, Nul> f(os); Obj* p = (Obj*)f.allocate(N); if (!p) return; life(f, p, &B::s, false, true, all, 2); f.deallocate(p, N); } }
KS_ENTRY(wrappers) {
  using A = Spy<0, OWNS | CD>; A a; SpyS* all[] = {&A::s}; Obj* p = (Obj*)a.allocate(N); if (!p) return;
  switch (ks_choose("wrapper", 4)) {
    case 0: { reference<A> w(a); life(w, p, &A::s, true, true, all, 1); break; }
    case 1: { shared<A> w; life(w, p, &A::s, true, true, all, 1); break; }
    case 2: { threaded<A> w; life(w, p, &A::s, true, true, all, 1); break; }
    case 3: { atomic_shared<threaded<A>> w; life(w, p, &A::s, true, true, all, 1); break; }
  }
}
// nested trees
KS_ENTRY(nested) {
  using A = Spy<0, OWNS | CD>; using B = Spy<1, OWNS | CD>; using C = Spy<2, OWNS | CD>; SpyS* all[] = {&A::s, &B::s, &C::s};
  A a; B b; C c; Obj* p[3] = {(Obj*)a.allocate(N), (Obj*)b.allocate(N), (Obj*)c.allocate(N)};
  int w = (int)ks_choose("where", 3);
  switch (ks_choose("tree", 4)) {
    case 0: { fallback_builder_min<A, B, C> f; life(f, p[w], all[w], true, true, all, 3); break; }
    case 1: { fallback_builder_max<A, B, C> f; life(f, p[w], all[w], true, true, all, 3); break; }
    case 2: { segragator_builder_min<A, threshold<16>, B, threshold<64>, C> f; life(f, p[w], all[w], true, true, all, 3); break; }
    case 3: { segragator_builder_max<A, threshold<16>, B, threshold<64>, C> f; life(f, p[w], all[w], true, true, all, 3); break; }
  }
}
// cascading: the instance that owns the object
static SpyS in[6]; static int made = 0;
struct Inst { int id; size_t room = 1; Inst() { id = made++; } Inst(const Inst&) = delete;
  bool operator==(const Inst& o) const noexcept { return id == o.id; } bool operator!=(const Inst& o) const noexcept { return id != o.id; }
  void* allocate(size_t n) noexcept { if (!room) return nullptr; room--; return in[id].allocate(n, false); } void deallocate(void* p, size_t n) noexcept { in[id].deallocate(p, n); room++; }
  bool owns(void* p) const noexcept { return in[id].has(p); }
  template<class T, class... X> void construct(T* p, X&&... x) noexcept { in[id].cons++; ::new (p) T(std::forward<X>(x)...); } template<class T> void destroy(T* p) noexcept { in[id].dest++; p->~T(); } };
KS_ENTRY(cascade) {
  cascading<Inst> c; Obj* p[3]; int own[3]; for (int i = 0; i < 3; i++) { p[i] = (Obj*)c.allocate(N); if (!p[i]) return; own[i] = made - 1; }
  SpyS* all[] = {&in[0], &in[1], &in[2], &in[3]}; int w = (int)ks_choose("where", 3), u = (int)ks_choose("then", 3);
  life(c, p[w], all[own[w]], true, true, all, 4); life(c, p[u], all[own[u]], true, true, all, 4);
  for (int i = 0; i < 3; i++) c.deallocate(p[i], N);
}
