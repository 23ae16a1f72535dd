// Typed recording allocator and reference model for the container harnesses.
#pragma once
#include "common.h"
#include <cstdlib>
#include <memory>
struct Book { // one allocator's blocks
  static constexpr int MAX = 48;
  void* p[MAX]; size_t n[MAX]; bool live[MAX]; int nb = 0, nlive = 0, asks = 0;
};
static Book g_book[3];
static inline int liveBlocks() { return g_book[0].nlive + g_book[1].nlive + g_book[2].nlive; }
template<class T> struct TSpy {
  typedef T value_type;
  int id;
  TSpy(int i = 0) noexcept : id(i) {}
  template<class U> TSpy(const TSpy<U>& o) noexcept : id(o.id) {}
  T* allocate(size_t n) noexcept {
    Book& b = g_book[id]; b.asks++;
    T* q = (T*)malloc(n * sizeof(T)); if (!ks_split(q != nullptr)) ks_fail(KS_PROP ": harness: a block larger than the bounds was asked for");
    if (b.nb == Book::MAX) ks_fail(KS_PROP ": harness: too many blocks");
    b.p[b.nb] = q; b.n[b.nb] = n; b.live[b.nb] = true; b.nb++; b.nlive++; return q;
  }
  void deallocate(T* q, size_t n) noexcept {
    Book& b = g_book[id]; int i = 0; while (i < b.nb && !(b.live[i] && b.p[i] == q)) i++;
    if (i == b.nb) ks_fail(KS_PROP ": a block is given back that this allocator has not handed out, or twice");
    ks_check(b.n[i] == n, KS_PROP ": a block is given back with the element count it was allocated with");
    b.live[i] = false; b.nlive--; free(q);
  }
  bool operator==(const TSpy& o) const noexcept { return id == o.id; }
  bool operator!=(const TSpy& o) const noexcept { return id != o.id; }
};
struct Wide { uint32_t a; uint64_t b; bool operator==(const Wide& o) const { return ks_and(a == o.a, b == o.b); } Wide() = default; Wide(uint32_t x, uint64_t y) : a(x), b(y) {} };
struct Odd { uint8_t a, b, c; bool operator==(const Odd& o) const { return ks_and(a == o.a, ks_and(b == o.b, c == o.c)); } };
template<class T> static T val();
template<> uint8_t val<uint8_t>() { return ks_u8("v"); }
template<> uint32_t val<uint32_t>() { return ks_u32("v"); }
template<> Wide val<Wide>() { Wide w; w.a = ks_u32("v"); w.b = ks_u64("v"); return w; }
template<> Odd val<Odd>() { Odd w; w.a = ks_u8("v"); w.b = ks_u8("v"); w.c = 7; return w; }
// the abstract sequence; elements whose value is unspecified are not known
template<class T, int N> struct Seq {
  T v[N]; bool known[N]; size_t n = 0;
  void add(const T& x) { v[n] = x; known[n] = true; n++; }
  void ins(size_t at, const T& x) { for (size_t i = n; i > at; i--) { v[i] = v[i - 1]; known[i] = known[i - 1]; } v[at] = x; known[at] = true; n++; }
  void del(size_t a, size_t b) { for (size_t i = b; i < n; i++) { v[a + i - b] = v[i]; known[a + i - b] = known[i]; } n -= b - a; }
  void resize(size_t k) { for (size_t i = n; i < k; i++) known[i] = false; n = k; }
};
// contents of c are those of m, by every way of reading them
#define AGREE(prop, c, m) do { if constexpr (ON(prop)) agree(prop, c, m); } while (0)
template<class C, class M> static void agree(const char* prop, C& c, const M& m) {
  const C& k = c;
  ks_check(k.size() == m.n, KS_PROP ": size() is the number of elements");
  if (k.size() != m.n) ks_fail(KS_PROP ": size() is the number of elements");
  ks_check(k.empty() == (m.n == 0), KS_PROP ": empty() tells whether there are elements");
  ks_check(k.data() == k.begin() && c.data() == c.begin() && k.begin() == (const void*)c.begin() && size_t(k.end() - k.begin()) == m.n && size_t(c.end() - c.begin()) == m.n, KS_PROP ": data(), begin() and end() delimit the elements");
  bool ok = true; size_t i = 0;
  for (auto it = k.begin(); it != k.end(); ++it, ++i) if (m.known[i]) ok = ks_and(ok, *it == m.v[i]);
  ks_check(ok, KS_PROP ": forward iteration yields the elements in order");
  i = m.n; size_t r = 0; ok = true;
  for (auto it = k.rbegin(); it != k.rend(); ++it, ++r) { --i; if (m.known[i]) ok = ks_and(ok, *it == m.v[i]); }
  ks_check(r == m.n, KS_PROP ": reverse iteration visits every element");
  i = m.n; for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; if (m.known[i]) ok = ks_and(ok, *it == m.v[i]); }
  ks_check(ok, KS_PROP ": reverse iteration yields the elements in reverse");
  ok = true; for (i = 0; i < m.n; i++) if (m.known[i]) ok = ks_and(ok, ks_and(k[i] == m.v[i], ks_and(c[i] == m.v[i], k.at(i) == m.v[i])));
  ks_check(ok, KS_PROP ": indexing yields the elements");
}
// serves any count with a small block, for containers whose far elements are never touched
struct HugeBook { void* p[8]; uint64_t n[8]; bool live[8]; int nb = 0, nlive = 0; };
static HugeBook g_huge;
template<class T> struct HugeSpy {
  typedef T value_type;
  HugeSpy() noexcept {}
  template<class U> HugeSpy(const HugeSpy<U>&) noexcept {}
  T* allocate(size_t n) noexcept { HugeBook& b = g_huge; if (b.nb == 8) ks_fail(KS_PROP ": harness: too many blocks"); T* q = (T*)malloc(256); b.p[b.nb] = q; b.n[b.nb] = n; b.live[b.nb] = true; b.nb++; b.nlive++; return q; }
  void deallocate(T* q, size_t n) noexcept { HugeBook& b = g_huge; int i = 0; while (i < b.nb && !(b.live[i] && b.p[i] == q)) i++; if (i == b.nb) ks_fail(KS_PROP ": a block is given back that this allocator has not handed out, or twice"); ks_check(b.n[i] == n, KS_PROP ": a block is given back with the element count it was allocated with"); b.live[i] = false; b.nlive--; free(q); }
  bool operator==(const HugeSpy&) const noexcept { return true; }
  bool operator!=(const HugeSpy&) const noexcept { return false; }
};
static uint64_t hugeCount() { uint64_t n = ks_u64("huge"); ks_assume(n >= 8); ks_assume(n <= (uint64_t(1) << 43)); return n; }
#define HUGE_ASKED(n) CHECK("C06", g_huge.nb > 0 && g_huge.n[g_huge.nb - 1] >= (n), "a block of at least that many elements is allocated")
// three containers on three allocators, any sequence of K copies, moves, swaps and changes between them
template<class C, class Mod, bool Copies, class Al, class Make, class Tweak, class Agree, class None> static void chain(int K, Make mk, Tweak tw, Agree ag, None none) {
  Raw<C> r[3]; Mod m[3]; C* c[3];
  for (int i = 0; i < 3; i++) c[i] = mk(r[i].p(), i, m[i]);
  for (int k = 0; k < K; k++) {
    int x = ks_choose("x", 3), kind = ks_choose("kind", 8), y = kind == 7 ? x : (x + 1 + (int)ks_choose("y", 2)) % 3;
    if (!Copies && (kind == 0 || kind == 2 || kind == 4)) continue;
    switch (kind) {
      case 0: if constexpr (Copies) { *c[x] = *c[y]; m[x] = m[y]; } break;
      case 1: *c[x] = std::move(*c[y]); m[x] = m[y]; m[y] = none(m[y]); break;
      case 2: if constexpr (Copies) { c[x]->~C(); new (c[x]) C(*c[y]); m[x] = m[y]; } break;
      case 3: c[x]->~C(); new (c[x]) C(std::move(*c[y])); m[x] = m[y]; m[y] = none(m[y]); break;
      case 4: if constexpr (Copies) { c[x]->~C(); new (c[x]) C(*c[y], Al(x)); m[x] = m[y]; } break;
      case 5: c[x]->~C(); new (c[x]) C(std::move(*c[y]), Al(x)); m[x] = m[y]; m[y] = none(m[y]); break;
      case 6: { std::swap(*c[x], *c[y]); Mod t = m[x]; m[x] = m[y]; m[y] = t; break; }
      case 7: tw(*c[x], m[x]); break;
    }
    for (int i = 0; i < 3; i++) ag(*c[i], m[i]);
  }
  for (int i = 0; i < 3; i++) { tw(*c[i], m[i]); ag(*c[i], m[i]); }
  for (int i = 2; i >= 0; i--) c[i]->~C();
}
