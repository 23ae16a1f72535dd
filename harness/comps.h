// The compositions the cross-cutting properties are checked on. B0, B1: the base allocators at the bottom.
#pragma once
#include "spy.h"
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/null_allocator.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/stack_allocator.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;
struct Nul { Nul& operator<<(const char*) { return *this; } Nul& operator<<(unsigned long) { return *this; } Nul& operator<<(long) { return *this; } Nul& operator<<(const void*) { return *this; } };
// Sym: sizes are arbitrary 64-bit values (false: the allocator writes at offsets that depend on the size, a menu is used)
template<class A, bool Sym_ = true> struct Plain { static constexpr bool Sym = Sym_, Twin = true; A a; A& get() { return a; } };
template<class A> struct Over { static constexpr bool Sym = false, Twin = true; Nul os; overflow<A, Nul> a{os}; overflow<A, Nul>& get() { return a; } };
template<class A, class T> struct Ref { static constexpr bool Sym = true, Twin = true; T t; A a{t}; A& get() { return a; } };
template<class M> struct StackFb { static constexpr bool Sym = true, Twin = true; stack<64> s; fallback<stack_allocator<64>, M> a{stack_allocator<64>(s), M()}; auto& get() { return a; } };
struct Glob { static constexpr bool Sym = true, Twin = false; global<linear_allocator<128>> a; auto& get() { return a; } };
struct Stk { static constexpr bool Sym = true, Twin = true; stack<96> s; stack_allocator<96> a{s}; auto& get() { return a; } };
template<int Z> struct StkLin { static constexpr bool Sym = true, Twin = true; stack<Z> s; fallback<stack_allocator<Z>, linear_allocator<96>> a{stack_allocator<Z>(s), linear_allocator<96>()}; auto& get() { return a; } };
struct Stk2 { static constexpr bool Sym = true, Twin = true; stack<96> s; struct Both { stack_allocator<96> a, b; int k = 0; void* allocate(size_t n) { return (k++ & 1 ? b : a).allocate(n); } void deallocate(void* p, size_t n) { (k++ & 1 ? a : b).deallocate(p, n); } bool owns(void* p) const { return b.owns(p); } size_t max_size() const { return a.max_size(); } };
  Both x{stack_allocator<96>(s), stack_allocator<96>(s)}; Both& get() { return x; } };
// two handles used in turn
template<class S> struct Pair { static constexpr bool Sym = true, Twin = true; struct Both { S a; S b{a}; int k = 0;
  void* allocate(size_t n) { return (k++ & 1 ? b : a).allocate(n); } void deallocate(void* p, size_t n) { (k++ & 1 ? a : b).deallocate(p, n); }
  template<class Q = S> auto owns(void* p) const -> decltype(std::declval<const Q&>().owns(p)) { return b.owns(p); } template<class Q = S> auto max_size() const -> decltype(std::declval<const Q&>().max_size()) { return b.max_size(); } } a; Both& get() { return a; } };
// an allocator with room for two blocks, which it gets from M: it goes away with a cascading's instance, its blocks do not
template<class M> struct Cell { M m; void* b[2] = {}; size_t n[2] = {};
  void* allocate(size_t k) noexcept { for (int i = 0; i < 2; i++) if (!b[i]) { n[i] = k; return b[i] = m.allocate(k); } return nullptr; }
  void deallocate(void* p, size_t k) noexcept { for (int i = 0; i < 2; i++) if (b[i] && ks_split(b[i] == p)) { m.deallocate(p, k); b[i] = nullptr; return; } ks_fail(KS_PROP ": a block reaches an allocator that did not hand it out"); }
  bool owns(void* p) const noexcept { bool r = false; for (int i = 0; i < 2; i++) if (b[i]) r = ks_or(r, ks_or(p == b[i], ks_and(addr(p) >= addr(b[i]), addr(p) - addr(b[i]) < n[i]))); return r; }
  bool operator==(const Cell& o) const noexcept { return this == &o; } bool operator!=(const Cell& o) const noexcept { return this != &o; } };
// M: a base allocator without owns()
#define COMPS_LIGHT(X, M) \
  X(malloc, Plain<M>) \
  X(free16, Plain<freelist<0 COMMA 16 COMMA M>>) \
  X(free64, Plain<freelist<16 COMMA 64 COMMA M>>) \
  X(segr, Plain<segragator<32 COMMA freelist<0 COMMA 32 COMMA M> COMMA M>>) \
  X(fblin, Plain<fallback<linear_allocator<64> COMMA M>>) \
  X(fbstack, StackFb<M>) \
  X(casc64, Plain<cascading<linear_allocator<64>>>) \
  X(casc40, Plain<cascading<linear_allocator<40>>>) \
  X(shcasc, Pair<shared<cascading<linear_allocator<64>>>>) \
  X(thrfree, Plain<threaded<freelist<0 COMMA 64 COMMA M>>>) \
  X(tree, Plain<segragator_builder_max<linear_allocator<64> COMMA threshold<16> COMMA freelist<16 COMMA 64 COMMA M> COMMA threshold<64> COMMA M>>) \
  X(treemin, Plain<segragator_builder_min<freelist<0 COMMA 16 COMMA M> COMMA threshold<16> COMMA linear_allocator<128> COMMA threshold<100> COMMA M>>) \
  X(overm, Over<M>) \
  X(overlin, Over<linear_allocator<512>>) \
  X(overfb, Over<fallback<linear_allocator<256> COMMA M>>) \
  X(reflin, Ref<reference<linear_allocator<128>> COMMA linear_allocator<128>>) \
  X(shthr, Pair<atomic_shared<threaded<linear_allocator<128>>>>) \
  X(cascfb, Plain<cascading<fallback<linear_allocator<64> COMMA linear_allocator<128>>>>) \
  X(freefb, Plain<freelist<16 COMMA 64 COMMA fallback<linear_allocator<128> COMMA M>>>) \
  X(fb3, Plain<fallback_builder_min<linear_allocator<64> COMMA linear_allocator<128> COMMA M>>) \
  X(fb3max, Plain<fallback_builder_max<linear_allocator<64> COMMA linear_allocator<128> COMMA M>>) \
  X(fbfree, Plain<fallback<freelist<0 COMMA 16 COMMA linear_allocator<64>> COMMA M>>) \
  X(cascfree, Plain<cascading<freelist<0 COMMA 16 COMMA linear_allocator<64>>>>) \
  X(freecasc, Plain<freelist<0 COMMA 64 COMMA cascading<linear_allocator<128>>>>) \
  X(casccasc, Plain<cascading<cascading<linear_allocator<64>>>>) \
  X(casccell, Plain<cascading<Cell<M>>>) \
  X(freecell, Plain<freelist<0 COMMA 32 COMMA cascading<Cell<M>>>>) \
  X(overcasc, Over<cascading<linear_allocator<512>>>) \
  X(overfree, Over<freelist<0 COMMA 256 COMMA M>>) \
  X(shfree, Pair<shared<freelist<0 COMMA 64 COMMA M>>>) \
  X(freefree, Plain<freelist<0 COMMA 64 COMMA freelist<32 COMMA 64 COMMA M>>>) \
  X(fbcasc, Plain<fallback<cascading<linear_allocator<64>> COMMA M>>) \
  X(fbfreecasc, Plain<fallback<freelist<16 COMMA 64 COMMA cascading<linear_allocator<128>>> COMMA M>>) \
  X(reffb, Ref<reference<fallback<linear_allocator<64> COMMA M>> COMMA fallback<linear_allocator<64> COMMA M>>) \
  X(linear, Plain<linear_allocator<96>>) \
  X(stack, Stk) \
  X(stack2, Stk2) \
  X(free8, Plain<freelist<0 COMMA 8 COMMA M>>) \
  X(free12, Plain<freelist<3 COMMA 12 COMMA M>>) \
  X(freelin, Plain<freelist<0 COMMA 24 COMMA linear_allocator<128>>>) \
  X(glob, Glob)
// whose contents with arbitrary sizes take long to decide
#define COMPS_HEAVY(X, M) \
  X(fbstlin, StkLin<64>) \
  X(segrlin, Plain<segragator<32 COMMA linear_allocator<64> COMMA linear_allocator<256>>>) \
  X(segrcasc, Plain<segragator<64 COMMA cascading<linear_allocator<256>> COMMA M>>) \
  X(readme, Plain<segragator_builder_max<freelist<0 COMMA 16 COMMA cascading<linear_allocator<128>>> COMMA threshold<16> COMMA freelist<16 COMMA 64 COMMA cascading<linear_allocator<256>>> COMMA threshold<64> COMMA M>>) \
  X(cascsegr, Plain<cascading<segragator<16 COMMA linear_allocator<64> COMMA linear_allocator<128>>>>)
#define COMPS(X, M) COMPS_LIGHT(X, M) COMPS_HEAVY(X, M)
#define COMMA ,
template<class C> static size_t anysize(bool mid = true) {
  if constexpr (C::Sym) return ks_u64("n");
  else { static constexpr size_t M[] = {0, 1, 40, 300, 5000, ~size_t(0) - 60}; return M[ks_choose("n", 6)]; }
}
