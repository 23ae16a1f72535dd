// linear_allocator and stack_allocator: histories of allocations (any 64-bit size) and deallocations.
// REACH: alloc-ok alloc-null dealloc-lifo dealloc-other all-empty
#include "common.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/stack_allocator.h"
using namespace ktl;

template<size_t S> struct Lin {
  static constexpr size_t Size = S;
  linear_allocator<S> a;
  void* allocate(size_t n) { return a.allocate(n); }
  void deallocate(void* p, size_t n) { a.deallocate(p, n); }
  bool owns(const void* p) { return a.owns(const_cast<void*>(p)); }
  size_t max_size() { return a.max_size(); }
  uintptr_t base() { linear_allocator<S> t; return addr(&a) + (addr(t.allocate(1)) - addr(&t)); }
};
template<size_t S> struct Stk {
  static constexpr size_t Size = S;
  stack<S> st; stack_allocator<S> a{st}; stack_allocator<S> b{a};
  // two handles on the same stack, used in turn
  void* allocate(size_t n) { return a.allocate(n); }
  void deallocate(void* p, size_t n) { b.deallocate(p, n); }
  bool owns(const void* p) { return b.owns(const_cast<void*>(p)); }
  size_t max_size() { return a.max_size(); }
  uintptr_t base() { stack<S> s2; stack_allocator<S> t(s2); return addr(&st) + (addr(t.allocate(1)) - addr(&s2)); }
};

// a linear_allocator that was used, emptied and moved from or to; the history then runs on either side of the move
template<size_t S> struct Moved : Lin<S> {
  linear_allocator<S> other;
  Moved() {
    auto use = [](linear_allocator<S>& x) { // leaves an empty allocator with some past
      int past = ks_choose("past", 4); if (!past) return;
      void* p = x.allocate(past == 2 ? S / 16 * 16 : 16); if (!p) return;
      void* q = past == 3 ? x.allocate(5) : nullptr;
      x.deallocate(p, past == 2 ? S / 16 * 16 : 16); if (q) x.deallocate(q, 5);
    };
    use(this->a); use(other);
    switch (ks_choose("move", 4)) {
      case 0: this->a = std::move(other); break;
      case 1: other = std::move(this->a); break;
      case 2: { linear_allocator<S> t(std::move(this->a)); this->a = std::move(t); break; }
      case 3: { linear_allocator<S> t(std::move(this->a)); void* p = t.allocate(8); CHECK("A01", p != nullptr && addr(p) - addr(&t) < sizeof(t), "a moved-to allocator serves from its own buffer"); t.deallocate(p, 8); break; }
    }
  }
};
struct Blk { uintptr_t p; size_t n; bool live; };

template<class R, int K> static void history() {
  constexpr size_t Size = R::Size;
  constexpr size_t Max16 = Size / 16 * 16;
  R r; uintptr_t base = r.base();
  CHECK("A01", base >= addr(&r) && base + Size <= addr(&r) + sizeof(r), "the buffer lies inside the allocator or its stack");
  Blk b[K]; int nb = 0; int live = 0;
  int stk[K]; int ns = 0; // allocation order, blocks given back in reverse order are popped
  for (int step = 0; step < K; step++) {
    int op = (int)ks_choose("op", 1 + live); // 0: allocate, k: deallocate the k-th live block
    if (op == 0) {
      size_t n = ks_u64("n");
      void* q = r.allocate(n);
      if (!ks_split(q != nullptr)) {
        ks_reach("alloc-null");
        continue;
      }
      ks_reach("alloc-ok");
      uintptr_t p = addr(q);
      CHECK("A01", ks_and(p >= base, ks_and(p - base <= Size, n <= Size - (p - base))), "block inside the buffer");
      CHECK("A02", (p & 15) == 0, "block aligned for max_align_t");
      CHECK("A03", n <= r.max_size(), "request above max_size() refused");
      if constexpr (ON("A01"))
        for (int i = 0; i < nb; i++) if (b[i].live)
          CHECK("A01", ks_or(ks_or(n == 0, b[i].n == 0), ks_or(p + n <= b[i].p, b[i].p + b[i].n <= p)), "block overlaps no live block");
      b[nb].p = p; b[nb].n = n; b[nb].live = true; stk[ns++] = nb; nb++; live++;
    } else {
      int k = op; int i = 0;
      for (;; i++) if (b[i].live && --k == 0) break;
      r.deallocate((void*)b[i].p, b[i].n);
      b[i].live = false; live--;
      bool lifo = ns > 0 && stk[ns - 1] == i;
      if (lifo) { ns--; ks_reach("dealloc-lifo"); } else ks_reach("dealloc-other");
      if (live == 0) {
        ks_reach("all-empty"); ns = 0;
        if (ON("A04") && Max16 > 0) {
          // probe on the spot, then give it back
          void* q = r.allocate(Max16);
          CHECK("A04", q != nullptr, "once everything is deallocated the whole buffer is available");
          CHECK("A04", addr(q) == base, "the whole buffer starts at the beginning again");
          if (q) r.deallocate(q, Max16);
        }
      } else if (ON("A04") && lifo && b[i].n != 0) {
        size_t m = ks_u64("m"); ks_assume(m <= b[i].n);
        void* q = r.allocate(m);
        CHECK("A04", q != nullptr, "space of the block deallocated last-in-first-out is available again");
        bool bytes = false; for (int j = 0; j < nb; j++) if (b[j].live) bytes = ks_or(bytes, b[j].n != 0);
        CHECK("A04", ks_imp(bytes, addr(q) == b[i].p), "exactly that space is used"); // with only empty blocks left the whole buffer may be
        if (q) r.deallocate(q, m);
      }
    }
    if constexpr (ON("A05")) {
      uintptr_t delta = ks_u64("delta"); uintptr_t x = base + delta;
      bool o = r.owns((void*)x);
      CHECK("A05", ks_imp(delta >= Size, !o), "owns() is false outside the buffer");
      bool in = false;
      for (int i = 0; i < nb; i++) if (b[i].live) in = ks_or(in, ks_and(x >= b[i].p, x - b[i].p < b[i].n));
      CHECK("A05", ks_imp(in, o), "owns() is true inside every live block");
    }
  }
}
// many blocks, more than the histories have: given back in any rotation of the allocation order or of its reverse
template<class R, int K> static void many() {
  R r; uintptr_t base = r.base(); uintptr_t p[K]; size_t n[K];
  size_t a = ks_choose("a", 2) ? 5 : 16, z = 17;
  for (int i = 0; i < K; i++) {
    n[i] = i % 3 == 1 ? z : a; void* q = r.allocate(n[i]); CHECK("A01", q != nullptr, "there is room"); if (!q) return;
    p[i] = addr(q); CHECK("A01", ks_and(p[i] >= base, ks_and(p[i] - base <= R::Size, n[i] <= R::Size - (p[i] - base))), "block inside the buffer"); CHECK("A02", (p[i] & 15) == 0, "block aligned for max_align_t");
    if constexpr (ON("A01")) for (int j = 0; j < i; j++) CHECK("A01", ks_or(p[i] + n[i] <= p[j], p[j] + n[j] <= p[i]), "block overlaps no live block");
  }
  int rot = ks_choose("rotate", K), rev = ks_choose("reverse", 2); int gone = 1 + 5 * (int)ks_choose("keep", 3); 
  for (int k = 0; k < K; k++) {
    int i = (k + rot) % K; if (rev) i = K - 1 - i;
    if (k == gone) { // in between: a new block, which must not touch the remaining ones
      size_t m = ks_range("m", 1, 40); void* q = r.allocate(m);
      if (ks_split(q != nullptr)) {
        for (int h = k; h < K; h++) { int j = (h + rot) % K; if (rev) j = K - 1 - j; CHECK("A01", ks_or(addr(q) + m <= p[j], p[j] + n[j] <= addr(q)), "block overlaps no live block"); }
        CHECK("A01", ks_and(addr(q) >= base, addr(q) - base + m <= R::Size), "block inside the buffer");
        CHECK("A05", r.owns(q), "owns() is true inside every live block");
        r.deallocate(q, m);
      }
    }
    CHECK("A05", r.owns((void*)p[i]) && r.owns((void*)(p[i] + n[i] - 1)), "owns() is true inside every live block");
    r.deallocate((void*)p[i], n[i]);
  }
  constexpr size_t Max16 = R::Size / 16 * 16;
  void* q = r.allocate(Max16); CHECK("A04", q != nullptr && addr(q) == base, "once everything is deallocated the whole buffer is available");
  ks_reach("alloc-ok"); ks_reach("alloc-null"); ks_reach("dealloc-lifo"); ks_reach("dealloc-other"); ks_reach("all-empty");
}
#ifndef KS_STEPS
#define KS_STEPS 5
#endif
KS_ENTRY(linear64) { history<Lin<64>, KS_STEPS>(); }
KS_ENTRY(linear40) { history<Lin<40>, KS_STEPS>(); }
KS_ENTRY(linear1000) { history<Lin<1000>, KS_STEPS>(); }
KS_ENTRY(stack64) { history<Stk<64>, KS_STEPS>(); }
KS_ENTRY(stack100) { history<Stk<100>, KS_STEPS>(); }
KS_ENTRY(linear16) { history<Lin<16>, KS_STEPS>(); }
KS_ENTRY(linear70000) { history<Lin<70000>, KS_STEPS - 1>(); }
KS_ENTRY(stack70000) { history<Stk<70000>, KS_STEPS - 1>(); }
KS_ENTRY(moved64) { history<Moved<64>, KS_STEPS - 2>(); }
KS_ENTRY(moved40) { history<Moved<40>, KS_STEPS - 2>(); }
KS_ENTRY(many_linear) { many<Lin<1000>, 12>(); }
KS_ENTRY(many_stack) { many<Stk<1000>, 12>(); }
