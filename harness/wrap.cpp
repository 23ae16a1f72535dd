// Forwarding wrappers pass every call on once and unchanged; equality means sharing.
// REACH: done
#include "spy.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/null_allocator.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/stack_allocator.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;
constexpr unsigned F = OWNS | MAXS | REFUSE | CONS | DEST;
using P = SpyP<F>;
struct Obj { uint32_t a, b; static inline int live = 0; Obj(uint32_t x, uint32_t y) : a(x), b(y) { live++; } ~Obj() { live--; } };

// w forwards to s; v is a copy (or other alias) of w
template<class W, class V> static void forward(W& w, V& v, SpyS& s) {
  s.maxsz = ks_u64("maxsz");
  struct { void* p; size_t n; } b[2]; int nb = 0;
  for (int k = 0; k < 2; k++) {
    SpyS o = s; size_t n = ks_u64("n");
    void* q = k ? v.allocate(n) : w.allocate(n);
    CHECK("B08", s.asks == o.asks + 1 && s.frees == o.frees && s.owned == o.owned, "allocate is passed on once");
    CHECK("B08", s.lastN == n, "with the size unchanged"); CHECK("B08", q == s.lastP, "and the answer is returned");
    if (ks_split(q != nullptr)) { b[nb].p = q; b[nb].n = n; nb++; }
    o = s; uint64_t m = w.max_size();
    CHECK("B08", m == s.maxsz && s.maxed == o.maxed + 1 && s.asks == o.asks, "max_size is passed on once and returned");
    o = s; void* x = (void*)ks_u64("x"); bool got = v.owns(x);
    CHECK("B08", s.owned == o.owned + 1 && s.lastOwn == x && s.asks == o.asks && s.frees == o.frees, "owns is passed on once with the address unchanged");
    CHECK("B08", got == s.has(x), "and its answer is returned");
    if (k == 0 && nb) { CHECK("B08", v.owns(b[0].p), "a block of one is owned by the other"); }
  }
  bool f = ks_choose("order", 2);
  for (int k = 0; k < nb; k++) { int i = f ? nb - 1 - k : k; int fr = s.frees; if (k) w.deallocate(b[i].p, b[i].n); else v.deallocate(b[i].p, b[i].n); CHECK("B08", s.frees == fr + 1, "deallocate is passed on once"); }
  CHECK("B08", s.nlive == 0, "every block reached the wrapped allocator");
  { Raw<Obj> o; uint32_t x = ks_u32("a"), y = ks_u32("b"); SpyS c = s; w.construct(o.p(), x, y);
    CHECK("B12", s.cons == c.cons + 1 && s.lastC == o.p() && Obj::live == 1, "construct is passed on once, for the right object");
    CHECK("B12", o.p()->a == x && o.p()->b == y, "with the arguments unchanged"); CHECK("B12", s.dest == c.dest && s.asks == c.asks && s.frees == c.frees, "and nothing else happens");
    v.destroy(o.p()); CHECK("B12", s.dest == c.dest + 1 && s.lastD == o.p() && Obj::live == 0 && s.cons == c.cons + 1, "destroy is passed on once, for the right object"); }
  ks_reach("done");
}
static SpyS s0, s1;
KS_ENTRY(fwd_reference) {
  P p(&s0), q(&s1); using W = reference<P>; W w(p), o(q);
  CHECK("B08", &w.get_allocator() == &p, "get_allocator() is the referenced allocator");
  switch (ks_choose("alias", 5)) {
    case 0: { W v(w); forward(w, v, s0); CHECK("B08", w == v && !(w != v), "copies are equal"); break; }
    case 1: { W v(std::move(w)); W x(p); forward(x, v, s0); CHECK("B08", x == v && !(x != v), "moved copies are equal"); break; }
    case 2: { o = w; forward(w, o, s0); CHECK("B08", w == o && !(w != o), "assigned copies are equal"); break; }
    case 3: { o = std::move(w); W x(p); forward(x, o, s0); break; }
    case 4: { forward(w, p, s0); CHECK("B08", !(w == o) && w != o, "references to different allocators differ"); break; }
  }
}
using G = global<Spy<3, F>>;
KS_ENTRY(fwd_global) {
  G w; SpyS& s = Spy<3, F>::s;
  switch (ks_choose("alias", 4)) {
    case 0: { G v(w); forward(w, v, s); CHECK("B08", w == v, "copies are equal"); CHECK("B08", !(w != v), "copies are not unequal"); break; }
    case 1: { G v; forward(w, v, s); CHECK("B08", w == v, "all are equal"); CHECK("B08", !(w != v), "none are unequal"); break; }
    case 2: { G v(std::move(w)); forward(w, v, s); break; }
    case 3: { G v; v = w; G x; x = std::move(v); forward(x, w, s); CHECK("B08", &x.get_allocator() == &w.get_allocator(), "one allocator"); break; }
  }
}
struct DefP : P { DefP() : P(&s0) {} DefP(const P& p) : P(p) {} };
KS_ENTRY(global_set) { // set_allocator replaces the allocator for all of them
  using GG = global<DefP>; GG a, b; a.set_allocator(DefP(P(&s1))); forward(a, b, s1); CHECK("B08", s0.asks == 0 && s0.frees == 0, "the replaced allocator is not asked");
}
KS_ENTRY(fwd_threaded) {
  P p(&s0), q(&s1); using W = threaded<P>; W w(p), x(p), y(q);
  forward(w, w, s0);
  CHECK("B08", w == x, "equal underlying allocators"); CHECK("B08", !(w != x), "== and != are opposite");
  CHECK("B08", !(w == y) && w != y, "different underlying allocators differ");
  CHECK("B08", w.get_allocator() == p, "get_allocator()");
}
KS_ENTRY(fwd_shared) { P p(&s0), q(&s1); using W = shared<P>; W w(p), o(q); W v(w);
  switch (ks_choose("alias", 3)) {
    case 0: forward(w, v, s0); break;
    case 1: { o = w; forward(o, v, s0); CHECK("B08", o == v && !(o != v), "assigned copies are equal"); break; }
    case 2: { W m(std::move(w)); forward(m, v, s0); CHECK("B08", m == v && !(m != v), "moved copies are equal"); CHECK("B08", !(m == o) && m != o, "separate ones differ"); W same(p); CHECK("B08", !(m == same) && m != same, "separate state is never equal"); break; }
  } }
KS_ENTRY(fwd_atomic_shared) { P p(&s0); using W = atomic_shared<P>; W w(p); W v(w); if (ks_choose("alias", 2)) forward(w, v, s0); else { W m(std::move(w)); forward(m, v, s0); CHECK("B08", m == v && !(m != v), "equal"); } }
KS_ENTRY(fwd_nested) { P p(&s0); using W = reference<threaded<P>>; threaded<P> t(p); W w(t); atomic_shared<W> a(w); auto b = a; forward(w, b, s0); }
// type_allocator with objects of one byte counts in bytes
template<class W> struct Bytes { W& w; void* allocate(size_t n) { return w.allocate(n); } void deallocate(void* p, size_t n) { w.deallocate((char*)p, n); } bool owns(void* p) { return w.owns((char*)p); } size_t max_size() { return w.max_size(); }
  template<class T, class... A> void construct(T* p, A&&... a) { typename W::template rebind<T>::other o(w); o.construct(p, std::forward<A>(a)...); } template<class T> void destroy(T* p) { typename W::template rebind<T>::other o(w); o.destroy(p); } };
KS_ENTRY(fwd_typed) {
  P p(&s0), q(&s1); using W = type_allocator<char, P>; using U = W::rebind<uint64_t>::other; W w(p);
  static_assert(std::is_same_v<U, type_allocator<uint64_t, P>>);
  U u(w); W v(u); W z(std::move(u)); W o(q), o2(q);
  CHECK("B08", w == u && !(w != u), "a rebound copy is equal"); CHECK("B08", w == v && !(w != v), "and so is its rebound copy");
  CHECK("B08", !(w == o) && w != o, "allocators over different state differ"); CHECK("B08", !(o == u) && o != u, "across value types too");
  o = w; CHECK("B08", o == w && !(o != w), "assigned copies are equal"); o2 = std::move(o);
  Bytes<W> a{w}, b{v}, c{z}, d{o2};
  switch (ks_choose("alias", 3)) { case 0: forward(a, b, s0); break; case 1: forward(a, c, s0); break; case 2: forward(a, d, s0); break; }
  CHECK("B08", s1.asks == 0 && s1.frees == 0, "no other allocator is involved");
}
// a shared handle below: moving it away would leave the source with nothing
KS_ENTRY(typed_moves) {
  P p(&s0), q(&s1); using H = shared<P>; using W = type_allocator<char, H>; using U = W::rebind<uint64_t>::other;
  W w{H(p)}; W o{H(q)}; U ou{H(q)};
  void* x = nullptr; void* y = nullptr; auto use = [&](auto& a, auto& b) { CHECK("B08", a == b && !(a != b) && b == a, "the source and the result are equal");
    size_t n = ks_range("n", 0, 64); SpyS c = s0; x = a.allocate(n); CHECK("B08", s0.asks == c.asks + 1, "the source still acts on the shared state"); y = b.allocate(n); CHECK("B08", s0.asks == c.asks + 2, "and so does the result");
    if (x) b.deallocate((char*)x, n); if (y) a.deallocate((char*)y, n);
    CHECK("B08", s0.nlive == 0 && s1.asks == 0, "every block went back, and no other allocator is involved"); };
  switch (ks_choose("how", 8)) {
    case 0: { W v(w); use(w, v); break; }
    case 1: { W v(std::move(w)); use(w, v); break; }
    case 2: { U v(w); CHECK("B08", v == w && !(v != w), "a rebound copy is equal"); W z(v); use(w, z); break; }
    case 3: { U v(std::move(w)); CHECK("B08", v == w && !(v != w), "rebinding leaves the source equal"); W z(std::move(v)); CHECK("B08", v == z && v == w, "rebinding back too"); use(w, z); break; }
    case 4: { o = w; use(w, o); break; }
    case 5: { o = std::move(w); use(w, o); break; }
    case 6: { const W& cw = w; W v(cw); o = cw; use(o, v); break; }
    case 7: { typename std::allocator_traits<W>::template rebind_alloc<uint64_t> v(std::move(w)); W z(v); use(z, w); break; }
  }
  ks_reach("done");
}
// equality of the others: opposite operators, reflexive, never equal when one cannot take the other's memory
template<class A, class B> static void differ(const A& a, const B& b, const char*) { CHECK("B08", !(a == b), "allocators that cannot take each other's memory are not equal"); CHECK("B08", a != b, "allocators that cannot take each other's memory are unequal"); CHECK("B08", !(b == a) && b != a, "symmetrically"); }
template<class A, class B> static void equal(const A& a, const B& b) { CHECK("B08", a == b, "allocators on the same state are equal"); CHECK("B08", !(a != b), "allocators on the same state are not unequal"); CHECK("B08", b == a && !(b != a), "symmetrically"); }
template<class A> static void opposite(const A& a, const A& b) { CHECK("B08", (a == b) != (a != b), "== and != are opposite"); }
KS_ENTRY(eq_region) {
  linear_allocator<64> a, b; size_t n = ks_range("n", 0, 64); int k = (int)ks_choose("k", 4);
  if (k & 1) a.allocate(n); if (k & 2) b.allocate(n);
  equal(a, a); differ(a, b, "linear");
  stack<64> x, y; stack_allocator<64> p(x), q(x), r(y), t(p); if (k & 1) p.allocate(n);
  equal(p, q); equal(p, t); differ(p, r, "stack"); t = r; equal(t, r); differ(t, p, "stack");
  stack_allocator<64> mv(std::move(q)); equal(mv, p);
  ks_reach("done");
}
KS_ENTRY(eq_stateless) { mallocator a, b; equal(a, b); null_allocator c, d; equal(c, d); ks_reach("done"); }
KS_ENTRY(eq_freelist) {
  using W = freelist<0, 16, P>; W a(&s0), b(&s1), c(&s0);
  int k = (int)ks_choose("k", 8);
  if (k & 1) { void* p = a.allocate(16); if (p) a.deallocate(p, 16); } if (k & 2) { void* p = b.allocate(16); if (p) b.deallocate(p, 16); } if (k & 4) { void* p = c.allocate(16); if (p) c.deallocate(p, 16); }
  equal(a, a); differ(a, b, "freelist"); opposite(a, c);
  ks_reach("done");
}
KS_ENTRY(eq_overflow) {
  struct Nul { Nul& operator<<(const char*) { return *this; } Nul& operator<<(unsigned long) { return *this; } Nul& operator<<(long) { return *this; } Nul& operator<<(const void*) { return *this; } } os;
  using W = overflow<P, Nul>; W a(os, P(&s0)), b(os, P(&s1)), c(os, P(&s0));
  equal(a, a); differ(a, b, "overflow"); equal(a, c); ks_reach("done");
}
template<class W> static void tree() {
  static SpyS t0, t1; int k = (int)ks_choose("k", 4);
  W a(P{&s0}, P{&s1}), b(P{k & 1 ? &t0 : &s0}, P{k & 2 ? &t1 : &s1});
  equal(a, a); if (k) differ(a, b, "tree"); else equal(a, b);
  W c(a); equal(c, a); c = b; equal(c, b);
  ks_reach("done");
}
KS_ENTRY(eq_fallback) { tree<fallback<P, P>>(); }
KS_ENTRY(eq_segragator) { tree<segragator<16, P, P>>(); }
KS_ENTRY(eq_cascading) {
  using W = cascading<linear_allocator<64>>; W a, b; void* p = a.allocate(8); opposite(a, b); differ(a, b, "cascading");
  void* q = b.allocate(8); differ(a, b, "cascading"); equal(a, a);
  W c(std::move(a)); CHECK("B08", c.owns(p) && !c.owns(q), "moved state"); differ(c, b, "cascading"); opposite(a, c);
  c.deallocate(p, 8); b.deallocate(q, 8);
  differ(c, b, "cascading"); ks_reach("done");
}
