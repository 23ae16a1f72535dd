// type_allocator counts in objects: any element size, any 64-bit count.
// REACH: served refused
#include "spy.h"
#include "ktl/allocators/type_allocator.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/shared.h"
using namespace ktl;
constexpr unsigned F = OWNS | MAXS | REFUSE;
using P = SpyP<F>;
template<size_t N> struct alignas(N % 8 == 0 ? 8 : 1) Bytes { char c[N]; };
static bool fits(size_t n, size_t sz) { return n <= ~size_t(0) / sz; }
template<class T> static void run() {
  SpyS s; P p(&s); using A = type_allocator<T, P>; A a(p);
  s.maxsz = ks_u64("max");
  CHECK("B09", a.max_size() <= s.maxsz / sizeof(T), "max_size() objects fit in the wrapped allocator's max_size() bytes");
  CHECK("B09", a.max_size() == s.maxsz / sizeof(T), "max_size() is the number of whole objects");
  for (int k = 0; k < 2; k++) {
    size_t n = ks_u64("n"); int as = s.asks, fr = s.frees;
    T* q = a.allocate(n);
    CHECK("B09", s.frees == fr, "allocate gives nothing back");
    if (!ks_split(q != nullptr)) { ks_reach("refused"); CHECK("B09", s.nlive == 0, "a refused request holds nothing"); continue; }
    CHECK("B09", fits(n, sizeof(T)), "a count whose byte size does not fit size_t is refused");
    CHECK("B09", s.asks == as + 1 && s.lastN == n * sizeof(T), "the byte size is count times element size");
    CHECK("B09", (void*)q == s.lastP, "the wrapped allocator's block is returned");
    CHECK("B09", there(q, n * sizeof(T)), "there is room for n objects");
    ks_reach("served");
    if (ks_split(n != 0)) { using R = typename A::template rebind<char>::other; CHECK("A05", a.owns(q) && a.owns((T*)((char*)q + sizeof(T) - 1)), "owns() is true inside a live block"); }
    a.deallocate(q, n); // the spy compares the size
    CHECK("B09", s.frees == fr + 1 && s.nlive == 0, "exactly the bytes of allocate(n) are given back");
  }
}
KS_ENTRY(t1) { run<char>(); }
KS_ENTRY(t2) { run<uint16_t>(); }
KS_ENTRY(t3) { run<Bytes<3>>(); }
KS_ENTRY(t8) { run<uint64_t>(); }
KS_ENTRY(t24) { run<Bytes<24>>(); }
KS_ENTRY(t100) { run<Bytes<100>>(); }
KS_ENTRY(t4096) { run<Bytes<4096>>(); }
// a request of n objects on a real allocator is served only if the bytes are there
KS_ENTRY(linear) {
  using A = type_allocator<uint64_t, shared<linear_allocator<256>>>; A a; size_t n = ks_u64("n"); uint64_t* p = a.allocate(n);
  if (ks_split(p != nullptr)) { CHECK("B09", n <= 32, "no more objects than fit"); CHECK("B09", a.owns(p + (n ? n - 1 : 0)) || n == 0, "the last object lies in the allocator"); a.deallocate(p, n); ks_reach("served"); }
  else { CHECK("B09", n > 32, "everything that fits is served"); ks_reach("refused"); }
  CHECK("B09", a.max_size() == 32, "max_size()");
}
