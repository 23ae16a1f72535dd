// The named typed allocators do what the composition they stand for does: the same history is run on both, over recorders.
// REACH: served
#include "spy.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/stack_allocator.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 3
#endif
// counts what is written
struct Rec { int n = 0; template<class X> Rec& operator<<(const X&) { n++; return *this; } };
template<class A, class = void> struct HasOwns : std::false_type {}; template<class A> struct HasOwns<A, std::void_t<decltype(std::declval<const A&>().owns(nullptr))>> : std::true_type {};
template<class A, class = void> struct HasMax : std::false_type {}; template<class A> struct HasMax<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};
constexpr unsigned LIM = OWNS | MAXS;
// sa, sr: the recorders below a and below r
template<class A, class R> static void same(A& a, R& r, SpyS* const* sa, SpyS* const* sr, int m, const Rec* ra = nullptr, const Rec* rr = nullptr) {
  struct { typename A::value_type* p; typename R::value_type* q; size_t n; bool live; } b[KS_STEPS]; int nb = 0, live = 0;
  auto alike = [&] {
    for (int i = 0; i < m; i++) ks_check(sa[i]->asks == sr[i]->asks && sa[i]->frees == sr[i]->frees && sa[i]->nlive == sr[i]->nlive && sa[i]->lastN == sr[i]->lastN, KS_PROP ": the members below are asked for the same and given back the same");
    if (ra) ks_check(ra->n == rr->n, KS_PROP ": the same is reported");
    if constexpr (HasMax<R>::value) ks_check(a.max_size() == r.max_size(), KS_PROP ": max_size() is the same");
  };
  alike();
  for (int step = 0; step < KS_STEPS; step++) {
    int op = (int)ks_choose("op", 1 + live);
    if (op == 0) {
      size_t n = ks_u64("n"); auto* p = a.allocate(n); auto* q = r.allocate(n);
      ks_check((p != nullptr) == (q != nullptr), KS_PROP ": the same requests are served");
      if (ks_split(p != nullptr)) { if (!q) return; ks_reach("served"); b[nb].p = p; b[nb].q = q; b[nb].n = n; b[nb].live = true; nb++; live++; if constexpr (HasOwns<R>::value) ks_check(a.owns(p) == r.owns(q), KS_PROP ": owns() answers the same"); }
    } else { int i = 0, k = op; for (;; i++) if (b[i].live && --k == 0) break; a.deallocate(b[i].p, b[i].n); r.deallocate(b[i].q, b[i].n); b[i].live = false; live--; }
    alike();
  }
  for (int i = 0; i < nb; i++) if (b[i].live) { a.deallocate(b[i].p, b[i].n); r.deallocate(b[i].q, b[i].n); alike(); }
}
using P = Spy<0, LIM>; using Q = Spy<1, LIM>; using P2 = Spy<2, LIM>; using Q2 = Spy<3, LIM>;
static SpyS *const SA[] = {&P::s, &Q::s}, *const SR[] = {&P2::s, &Q2::s};
static void limits(size_t a, size_t b) { P::s.maxsz = P2::s.maxsz = a; Q::s.maxsz = Q2::s.maxsz = b; }
// two handles to one allocator: the second one is used, then the first one ends, then the second one goes on
template<class A, class R, class... X> static void handles(int m, X&&... x) {
  Raw<A> h; Raw<R> g; new (h.p()) A(std::forward<X>(x)...); new (g.p()) R(std::forward<X>(x)...);
  { A a(*h.p()); R r(*g.p()); ks_check(a == *h.p() && !(a != *h.p()), KS_PROP ": copies are equal");
    auto* p = h.p()->allocate(1); auto* q = g.p()->allocate(1); h.p()->~A(); g.p()->~R();
    if (ks_split(p != nullptr) && q) { a.deallocate(p, 1); r.deallocate(q, 1); }
    same(a, r, SA, SR, m); }
}
static void gone() { ks_check(P::s.nlive == 0 && Q::s.nlive == 0 && P2::s.nlive == 0 && Q2::s.nlive == 0 && ks_heap_live() == 0, KS_PROP ": everything was given back"); }
using T4 = uint32_t; struct T1 { char c[3]; };
KS_ENTRY(malloc) { type_mallocator<T4> a; type_allocator<T4, mallocator> r; same(a, r, SA, SR, 0); gone(); }
KS_ENTRY(linear) { { type_linear_allocator<T4, 96> a; type_allocator<T4, linear_allocator<96>> r; same(a, r, SA, SR, 0); } gone(); }
KS_ENTRY(linear_reference) { { linear_allocator<96> l, k; type_reference_linear_allocator<T1, 96> a(l); type_allocator<T1, reference<linear_allocator<96>>> r(k); ks_check(&a.get_allocator().get_allocator() == &l, KS_PROP ": the allocator referred to is used"); same(a, r, SA, SR, 0); } gone(); }
KS_ENTRY(linear_shared) { handles<type_shared_linear_allocator<T4, 96>, type_allocator<T4, shared<linear_allocator<96>>>>(0); gone(); }
KS_ENTRY(stack) { { stack<96> b, c; type_stack_allocator<T4, 96> a(b); type_allocator<T4, stack_allocator<96>> r(c); same(a, r, SA, SR, 0); } gone(); }
KS_ENTRY(stack_shared) { { stack<96> b, c; type_shared_stack_allocator<T1, 96> a(b); type_allocator<T1, shared<stack_allocator<96>>> r(c); { auto a2(a); auto r2(r); same(a2, r2, SA, SR, 0); } } gone(); }
KS_ENTRY(freelist) { limits(100, 0); { type_freelist_allocator<T4, 16, 64, P> a; type_allocator<T4, freelist<16, 64, P2>> r; same(a, r, SA, SR, 1); } gone(); }
KS_ENTRY(freelist_shared) { limits(100, 0); handles<type_shared_freelist_allocator<T1, 0, 64, P>, type_allocator<T1, shared<freelist<0, 64, P2>>>>(1); gone(); }
KS_ENTRY(segragator) { limits(50, 500); { type_segragator_allocator<T4, 32, P, Q> a; type_allocator<T4, segragator<32, P2, Q2>> r; same(a, r, SA, SR, 2); } gone(); }
KS_ENTRY(segragator_reference) { limits(50, 500); { segragator<32, P, Q> s; segragator<32, P2, Q2> t; type_reference_segragator_allocator<T4, 32, P, Q> a(s); type_allocator<T4, reference<segragator<32, P2, Q2>>> r(t); ks_check(&a.get_allocator().get_allocator() == &s, KS_PROP ": the allocator referred to is used"); same(a, r, SA, SR, 2); } gone(); }
KS_ENTRY(segragator_shared) { limits(50, 500); handles<type_shared_segragator_allocator<T1, 32, P, Q>, type_allocator<T1, shared<segragator<32, P2, Q2>>>>(2); gone(); }
KS_ENTRY(fallback) { limits(50, 500); { type_fallback_allocator<T4, P, Q> a; type_allocator<T4, fallback<P2, Q2>> r; same(a, r, SA, SR, 2); } gone(); }
KS_ENTRY(fallback_shared) { limits(50, 500); handles<type_shared_fallback_allocator<T1, P, Q>, type_allocator<T1, shared<fallback<P2, Q2>>>>(2); gone(); }
KS_ENTRY(cascading) { { type_cascading_allocator<T4, linear_allocator<64>> a; type_allocator<T4, cascading<linear_allocator<64>>> r; same(a, r, SA, SR, 0); } gone(); }
KS_ENTRY(cascading_shared) { handles<type_shared_cascading_allocator<T1, linear_allocator<64>>, type_allocator<T1, shared<cascading<linear_allocator<64>>>>>(0); gone(); }
KS_ENTRY(shared_any) { limits(100, 0); handles<type_shared<T4, P>, type_allocator<T4, shared<P2>>>(1); handles<type_atomic_shared<T4, P>, type_allocator<T4, atomic_shared<P2>>>(1); gone(); }
// the sizes are few: overflow writes around its blocks
template<class A, class R> static void over(bool copies) {
  limits(300, 0); Rec ra, rr; static constexpr size_t N[] = {0, 1, 7, 60};
  { A a(ra); R r(rr); 
    for (int i = 0; i < 2; i++) { size_t n = N[ks_choose("n", 4)]; auto* p = a.allocate(n); auto* q = r.allocate(n); ks_check((p != nullptr) == (q != nullptr), KS_PROP ": the same requests are served"); if (!p || !q) continue; ks_reach("served");
      int d = (int)ks_choose("damage", 3); if (d) { ((uint8_t*)p)[d == 1 ? -1 : (long)(n * sizeof(*p))] = 3; ((uint8_t*)q)[d == 1 ? -1 : (long)(n * sizeof(*q))] = 3; }
      ks_check(P::s.lastN == P2::s.lastN, KS_PROP ": the members below are asked for the same"); int t = ra.n;
      if (ks_choose("give", 2)) { a.deallocate(p, n); r.deallocate(q, n); ks_check((ra.n != t) == (d != 0), KS_PROP ": damage is reported, to the stream given"); } ks_check(ra.n == rr.n, KS_PROP ": the same is reported"); } }
  ks_check(ra.n == rr.n, KS_PROP ": the same is reported"); ks_check(P::s.nlive == P2::s.nlive, KS_PROP ": the same is given back");
}
KS_ENTRY(overflow) { over<type_overflow_allocator<T4, P, Rec>, type_allocator<T4, overflow<P2, Rec>>>(false); }
KS_ENTRY(overflow_shared) { over<type_shared_overflow_allocator<T1, P, Rec>, type_allocator<T1, shared<overflow<P2, Rec>>>>(true); }
