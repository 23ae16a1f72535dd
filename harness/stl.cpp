// Standard containers on typed allocators with shared state, against an abstract model.
// REACH: done
#include "common.h"
#include <cstdlib>
#include "stl_rt.h"
#include <list>
#include <map>
#include <vector>
#include "ktl/allocators/cascading.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/global.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/mallocator.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/segragator.h"
#include "ktl/allocators/shared.h"
#include "ktl/allocators/threaded.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 2
#endif
struct M { uint32_t v[24]; size_t n = 0; void ins(size_t at, uint32_t x) { for (size_t i = n++; i > at; i--) v[i] = v[i - 1]; v[at] = x; } void del(size_t a, size_t b) { for (size_t i = b; i < n; i++) v[a + i - b] = v[i]; n -= b - a; } void swap(M& o) { M t = *this; *this = o; o = t; } };
template<class C> static void same(C& c, const M& m) {
  ks_check(c.size() == m.n, "S01: the container has the elements the same operations give with std::allocator");
  if (c.size() != m.n) ks_fail("S01: the container has the elements the same operations give with std::allocator");
  bool ok = true; size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) ok = ks_and(ok, *it == m.v[i]);
  ks_check(ok, "S01: the container has the elements the same operations give with std::allocator");
}
static uint32_t val() { return ks_u32("v"); }
template<class C> static auto at(C& c, size_t k) { auto it = c.begin(); while (k--) ++it; return it; }
// two containers; eq: on equal allocators
template<class C, class A> static void sequence(const A& a, const A& b) {
  bool eq = a == b; ks_check(eq != (a != b), "S01: == and != are opposite");
  C x(a), y(b); M mx, my;
  for (size_t k = ks_choose("fillx", 3); k--;) { uint32_t v = val(); x.push_back(v); mx.ins(mx.n, v); }
  for (size_t k = ks_choose("filly", 2); k--;) { uint32_t v = val(); y.push_back(v); my.ins(my.n, v); }
  constexpr bool L = std::is_same_v<C, std::list<uint32_t, A>>;
  for (int s = 0; s < KS_STEPS; s++) {
    switch (ks_choose("op", L ? 15 : 10)) {
      case 0: { uint32_t v = val(); size_t p = ks_choose("at", mx.n + 1); auto it = x.insert(at(x, p), v); ks_check(*it == v, "S01: insert returns the new element"); mx.ins(p, v); break; }
      case 1: { if (!mx.n) continue; size_t p = ks_choose("at", mx.n); x.erase(at(x, p)); mx.del(p, p + 1); break; }
      case 2: { C z(x); M mz = mx; ks_check(z.get_allocator() == a || !eq, "S01: the copy uses an equal allocator"); same(z, mz); uint32_t v = val(); z.push_back(v); mz.ins(mz.n, v); same(z, mz); same(x, mx); break; }
      case 3: { C z(std::move(x)); same(z, mx); x.clear(); if (ks_choose("back", 2)) x = std::move(z); else mx.n = 0; break; }
      case 4: y = x; my = mx; break;
      case 5: x = std::move(y); mx = my; y.clear(); my.n = 0; break;
      case 6: { if (!(x.get_allocator() == y.get_allocator())) continue; if (ks_choose("member", 2)) x.swap(y); else { using std::swap; swap(x, y); } mx.swap(my); break; }
      case 7: { x.clear(); mx.n = 0; break; }
      case 8: { C z(x, b); same(z, mx); C w(std::move(z), b); same(w, mx); break; }
      case 9: { uint32_t v = val(); size_t n = ks_choose("n", 4); if (ks_choose("assign", 2)) { x.assign(n, v); mx.n = 0; for (size_t i = 0; i < n; i++) mx.ins(i, v); } else { x.resize(n, v); while (mx.n > n) mx.n--; while (mx.n < n) mx.ins(mx.n, v); } break; }
      default: if constexpr (L) {
        bool can = x.get_allocator() == y.get_allocator();
        switch (ks_choose("listop", 5)) {
          case 0: { if (!can) continue; size_t p = ks_choose("at", mx.n + 1); x.splice(at(x, p), y); for (size_t i = 0; i < my.n; i++) mx.ins(p + i, my.v[i]); my.n = 0; break; }
          case 1: { if (!can || !my.n) continue; size_t p = ks_choose("at", mx.n + 1), q = ks_choose("from", my.n); x.splice(at(x, p), y, at(y, q)); mx.ins(p, my.v[q]); my.del(q, q + 1); break; }
          case 2: { uint32_t v = val(); x.push_front(v); mx.ins(0, v); break; }
          case 3: { if (!mx.n) continue; x.pop_front(); mx.del(0, 1); break; }
          case 4: { x.reverse(); for (size_t i = 0; i < mx.n / 2; i++) { uint32_t t = mx.v[i]; mx.v[i] = mx.v[mx.n - 1 - i]; mx.v[mx.n - 1 - i] = t; } break; }
        }
      }
    }
    same(x, mx); same(y, my);
  }
  ks_reach("done");
}
struct MM { uint32_t k[12], v[12]; size_t n = 0;
  int find(uint32_t x) const { for (size_t i = 0; i < n; i++) if (ks_split(k[i] == x)) return (int)i; return -1; }
  bool ins(uint32_t x, uint32_t y) { if (find(x) >= 0) return false; size_t i = n++; while (i > 0 && ks_split(x < k[i - 1])) { k[i] = k[i - 1]; v[i] = v[i - 1]; i--; } k[i] = x; v[i] = y; return true; }
  void del(size_t i) { for (n--; i < n; i++) { k[i] = k[i + 1]; v[i] = v[i + 1]; } }
  void swap(MM& o) { MM t = *this; *this = o; o = t; } };
template<class C> static void sameM(C& c, const MM& m) {
  ks_check(c.size() == m.n, "S01: the map has the elements the same operations give with std::allocator"); if (c.size() != m.n) ks_fail("S01: the map has the elements the same operations give with std::allocator");
  bool ok = true; size_t i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) ok = ks_and(ok, ks_and(it->first == m.k[i], it->second == m.v[i]));
  ks_check(ok, "S01: the map has the elements the same operations give with std::allocator");
}
template<class C, class A> static void mapping(const A& a, const A& b) {
  C x(a), y(b); MM mx, my;
  for (size_t k = ks_choose("fillx", 3); k--;) { uint32_t q = ks_u32("k"), v = val(); bool i = x.emplace(q, v).second; ks_check(i == mx.ins(q, v), "S01: insertion reports whether the key was new"); }
  for (size_t k = ks_choose("filly", 2); k--;) { uint32_t q = ks_u32("k"), v = val(); y[q] = v; my.ins(q, v); }
  for (int s = 0; s < KS_STEPS; s++) {
    switch (ks_choose("op", 11)) {
      case 0: { uint32_t q = ks_u32("k"), v = val(); bool i = x.insert({q, v}).second; ks_check(i == mx.ins(q, v), "S01: insertion reports whether the key was new"); break; }
      case 1: { uint32_t q = ks_u32("k"); size_t r = x.erase(q); int i = mx.find(q); ks_check(r == (i >= 0), "S01: erase reports whether the key was there"); if (i >= 0) mx.del(i); break; }
      case 2: { C z(x); sameM(z, mx); z.clear(); sameM(x, mx); break; }
      case 3: { C z(std::move(x)); sameM(z, mx); x.clear(); if (ks_choose("back", 2)) x = std::move(z); else mx.n = 0; break; }
      case 4: y = x; my = mx; break;
      case 5: x = std::move(y); mx = my; y.clear(); my.n = 0; break;
      case 6: { if (!(x.get_allocator() == y.get_allocator())) continue; x.swap(y); mx.swap(my); break; }
      case 7: x.clear(); mx.n = 0; break;
      case 8: { if (!(x.get_allocator() == y.get_allocator()) || !mx.n) continue; auto nh = x.extract(x.begin()); ks_check(nh.key() == mx.k[0], "S01: an extracted node keeps its element"); bool ins = my.ins(mx.k[0], mx.v[0]); mx.del(0); auto r = y.insert(std::move(nh)); ks_check(r.inserted == ins, "S01: a node of an equal allocator can be inserted"); break; }
      case 9: { if (!(x.get_allocator() == y.get_allocator())) continue; x.merge(y); MM rest; for (size_t i = 0; i < my.n; i++) if (!mx.ins(my.k[i], my.v[i])) rest.ins(my.k[i], my.v[i]); my = rest; break; }
      case 10: { C z(x, b); sameM(z, mx); C w(std::move(z), b); sameM(w, mx); break; }
    }
    sameM(x, mx); sameM(y, my);
  }
  ks_reach("done");
}
template<class A> struct Vec { typedef std::vector<uint32_t, type_allocator<uint32_t, A>> type; };
template<class A> struct List { typedef std::list<uint32_t, type_allocator<uint32_t, A>> type; };
template<class A> using TA = type_allocator<uint32_t, A>;
template<class A> using MapA = type_allocator<std::pair<const uint32_t, uint32_t>, A>;
// K: 0 vector, 1 list, 2 map; both containers on one allocator, or each on its own
template<int K, class T, class W> static void run(const W& w, const W& v) {
  if constexpr (K == 2) { MapA<W> a(w), b(v); mapping<std::map<uint32_t, uint32_t, std::less<uint32_t>, MapA<W>>>(a, b); }
  else { TA<W> a(w), b(v); if constexpr (K == 0) sequence<std::vector<uint32_t, TA<W>>>(a, b); else sequence<std::list<uint32_t, TA<W>>>(a, b); }
}
template<int K, class W> static void shared_() { { W w, v; if (ks_choose("equal", 2)) run<K, void>(w, w); else run<K, void>(w, v); } KS_CHECK(ks_heap_live() == 0, "S01: all memory is returned"); }
template<int K, class T> static void ref_() { { T t, u; using W = reference<T>; W w(t), v(u); if (ks_choose("equal", 2)) run<K, void>(w, w); else run<K, void>(w, v); } KS_CHECK(ks_heap_live() == 0, "S01: all memory is returned"); }
#define ENTRIES(K, name) \
  KS_ENTRY(name##_malloc) { shared_<K, mallocator>(); } \
  KS_ENTRY(name##_linear) { shared_<K, shared<linear_allocator<2048>>>(); } \
  KS_ENTRY(name##_freelist) { shared_<K, shared<segragator<64, freelist<0, 64, mallocator>, mallocator>>>(); } \
  KS_ENTRY(name##_casc) { shared_<K, shared<cascading<linear_allocator<256>>>>(); } \
  KS_ENTRY(name##_threaded) { shared_<K, atomic_shared<threaded<fallback<linear_allocator<64>, mallocator>>>>(); } \
  KS_ENTRY(name##_ref) { ref_<K, fallback<linear_allocator<128>, mallocator>>(); } \
  KS_ENTRY(name##_global) { shared_<K, global<fallback<linear_allocator<128>, mallocator>>>(); }
#if SET == 0
ENTRIES(0, vec)
#elif SET == 1
ENTRIES(1, list)
#else
ENTRIES(2, map)
#endif
