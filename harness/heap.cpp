// binary_heap: C04 (priority queue), C05 (lifetimes), C06 (storage), C07 (copies and moves), C08 (own elements), C09 (capacity)
// REACH: end
#include "cont.h"
#include "ktl/containers/binary_heap.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 3
#endif
#ifndef KS_DEEP
#define KS_DEEP 7
#endif
// --- elements
struct Tag { uint16_t key; uint8_t tag; bool operator==(const Tag& o) const { return ks_and(key == o.key, tag == o.tag); } };
struct Reg { static constexpr int MAX = 64; void* p[MAX]; bool live[MAX]; int n = 0, nlive = 0, made = 0, gone = 0;
  int find(const void* q) const { for (int i = 0; i < n; i++) if (live[i] && p[i] == q) return i; return -1; }
  void born(void* q) { if (find(q) >= 0) ks_fail(KS_PROP ": an element is constructed over a live one"); made++; nlive++; for (int i = 0; i < n; i++) if (!live[i]) { p[i] = q; live[i] = true; return; } if (n == MAX) ks_fail("harness: too many elements"); p[n] = q; live[n] = true; n++; }
  void dies(void* q) { int i = find(q); if (i < 0) ks_fail(KS_PROP ": an element that is not alive is destroyed"); live[i] = false; nlive--; gone++; }
  void uses(const void* q) const { if (find(q) < 0) ks_fail(KS_PROP ": an element that is not alive is used"); }
};
static Reg g_reg;
// an element that registers its lifetime; Copy: whether it can be copied; moved-from elements have lost their value
template<bool Copy> struct Trk {
  uint16_t key; uint8_t tag; bool moved = false;
  Trk(uint16_t k, uint8_t t) : key(k), tag(t) { g_reg.born(this); }
  Trk(const Trk& o) : key(o.key), tag(o.tag) { static_assert(Copy, "copied"); g_reg.uses(&o); o.value(); g_reg.born(this); }
  Trk(Trk&& o) noexcept : key(o.key), tag(o.tag) { g_reg.uses(&o); o.value(); g_reg.born(this); o.moved = true; }
  Trk& operator=(const Trk& o) { static_assert(Copy, "copied"); g_reg.uses(this); g_reg.uses(&o); o.value(); key = o.key; tag = o.tag; moved = false; return *this; }
  Trk& operator=(Trk&& o) noexcept { g_reg.uses(this); g_reg.uses(&o); o.value(); key = o.key; tag = o.tag; moved = false; o.moved = true; return *this; }
  ~Trk() { g_reg.dies(this); }
  void value() const { if (moved) ks_fail(KS_PROP ": an element is read after it was moved from"); }
  bool operator==(const Trk& o) const { g_reg.uses(this); g_reg.uses(&o); value(); o.value(); return ks_and(key == o.key, tag == o.tag); }
};
struct MoveOnly : Trk<true> { using Trk<true>::Trk; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete; };
struct ByKey { bool greater = false; template<class E> bool operator()(const E& a, const E& b) const { if constexpr (!std::is_same_v<E, Tag>) { g_reg.uses(&a); g_reg.uses(&b); a.value(); b.value(); } return greater ? b.key < a.key : a.key < b.key; } };
template<class E> static E mk(uint16_t k, uint8_t t) { if constexpr (std::is_same_v<E, Tag>) return Tag{k, t}; else return E(k, t); }
template<class E> using Heap = binary_heap<E, ByKey, TSpy<E>>;
// --- the abstract priority queue: elements are distinguished by their tags
#ifndef KS_PQ
#define KS_PQ 12
#endif
constexpr int N = KS_PQ;
struct PQ { uint16_t key[N]; uint8_t tag[N]; bool in[N]; int n = 0; int next = 0; bool gt = false;
  uint8_t add(uint16_t k) { int i = next++; key[i] = k; tag[i] = i; in[i] = true; n++; return i; }
  void clear() { for (int i = 0; i < next; i++) in[i] = false; n = 0; }
  bool first(uint16_t k) const { bool ok = true; for (int i = 0; i < next; i++) if (in[i]) ok = ks_and(ok, !(gt ? k < key[i] : key[i] < k)); return ok; }
};
#define PEEK(prop, e, q) do { auto& x_ = (e); CHECK(prop, x_.tag < q.next && q.in[x_.tag], "the element comes from the heap"); CHECK(prop, x_.key == q.key[x_.tag], "the element is unchanged"); CHECK(prop, q.first(x_.key), "no element precedes the one on top"); } while (0)
template<class H> static void holds(const char* prop, H& h, const PQ& q) { // exactly the multiset
  const H& k = h; bool ok = k.size() == size_t(q.n) && k.empty() == (q.n == 0) && size_t(k.end() - k.begin()) == k.size() && k.data() == k.begin() && size_t(h.end() - h.begin()) == k.size() && size_t(k.rend() - k.rbegin()) == k.size();
  ks_check(ok, KS_PROP ": size(), empty() and the iterators agree with the number of elements"); if (!ok) ks_fail(KS_PROP ": size");
  bool seen[N] = {}; bool v = true;
  for (auto& e : k) { if (e.tag >= q.next || !q.in[e.tag] || seen[e.tag]) ks_fail(KS_PROP ": the heap holds the inserted elements, each once"); seen[e.tag] = true; v = ks_and(v, e.key == q.key[e.tag]); if constexpr (!std::is_same_v<std::remove_const_t<std::remove_reference_t<decltype(e)>>, Tag>) { g_reg.uses(&e); e.value(); } }
  ks_check(v, KS_PROP ": the elements are unchanged");
  if (q.n) { ks_check(q.first(h.peek().key), KS_PROP ": no element precedes the one on top"); }
}
#define HOLDS(prop, h, q) do { if constexpr (ON(prop)) holds(prop, h, q); } while (0)
// code that is generic in the element and the order can only compare keys: 64 different ones stand for any in heaps of up to 40 elements
static uint16_t key() { return ks_u8("v") & 63; }
template<class E> static void put(Heap<E>& h, PQ& q, bool lvalue) {
  uint16_t k = key(); uint8_t t = q.add(k);
  auto chk = [&](E* it) { CHECK("C04", it >= h.begin() && it < h.end() && it->tag == t, "insert returns an iterator to the element"); };
  if constexpr (std::is_copy_constructible_v<E>) { if (lvalue) { E e = mk<E>(k, t); chk(h.insert(e)); CHECK("C04", e.tag == t, "the inserted lvalue is unchanged"); return; } }
  chk(h.insert(mk<E>(k, t)));
}
template<class E> static void take(Heap<E>& h, PQ& q) { E e = h.pop(); PEEK("C04", e, q); q.in[e.tag] = false; q.n--; }
template<class E> static void step(Heap<E>& h, PQ& q, bool last) {
  const E* at = h.data(); size_t cap = h.capacity(); int asks = g_book[0].asks + g_book[1].asks; bool room = true;
  switch (ks_choose("op", last ? 6 : 4)) {
    case 0: room = h.size() < cap; put(h, q, (q.next & 1) != 0); break;
    case 1: if (!q.n) return; take(h, q); break;
    case 2: if (!q.n) return; h.clear(); q.clear(); break;
    case 3: { size_t n = ks_range("n", 0, 9); room = ks_split(n <= cap); h.reserve(n); CHECK("C09", h.capacity() >= n, "capacity() is at least what was reserved"); break; }
    case 4: if constexpr (ON("C04") || ON("C05")) { uint16_t k = key(); uint8_t t = ks_choose("tag", q.next + 1); E e = mk<E>(k, t); auto it = h.find(e); bool in = t < q.next && q.in[t] && ks_split(k == q.key[t]); CHECK("C04", (it != h.end()) == in, "find locates a value if and only if it is present"); if (in) CHECK("C04", *it == e, "find returns the element"); } break;
    case 5: if (q.n) { PEEK("C04", h.peek(), q); } break;
  }
  CHECK("C09", h.capacity() >= h.size(), "capacity() is not below size()");
  CHECK("C09", h.capacity() >= cap, "capacity() never shrinks");
  if (room) CHECK("C09", h.data() == at && g_book[0].asks + g_book[1].asks == asks, "the storage stays where it is while there is room");
  HOLDS("C04", h, q);
}
static void done() {
  CHECK("C05", g_reg.nlive == 0 && g_reg.made == g_reg.gone, "every element was destroyed exactly once");
  CHECK("C06", liveBlocks() == 0 && ks_heap_live() == 0, "nothing remains allocated"); ks_reach("end");
}
template<class E, class F> static void built(F f) {
  int how = ks_choose("ctor", 6); PQ q; q.gt = how & 1; ByKey by; by.greater = q.gt; TSpy<E> al(1);
  switch (how) {
    case 0: { Heap<E> h(by); f(h, q); break; }
    case 1: { Heap<E> h(al, by); f(h, q); break; }
    case 2: { Heap<E> h(2, by); f(h, q); break; }
    case 3: { Heap<E> h(ks_choose("cap", 2), al, by); f(h, q); break; }
    default: if constexpr (std::is_copy_constructible_v<E>) {
      uint16_t k[3] = {key(), key(), key()}; for (int i = 0; i < 3; i++) q.add(k[i]);
      if (how == 5) { Heap<E> h({mk<E>(k[0], 0), mk<E>(k[1], 1), mk<E>(k[2], 2)}, al, by); HOLDS("C04", h, q); f(h, q); } else { Heap<E> h({mk<E>(k[0], 0), mk<E>(k[1], 1), mk<E>(k[2], 2)}, by); HOLDS("C04", h, q); f(h, q); } } break;
  }
}
template<class E, int K> static void history() {
  built<E>([](Heap<E>& h, PQ& q) { for (int i = 0; i < K; i++) step<E>(h, q, i == K - 1); if (ks_choose("drain", 2)) { while (q.n) take(h, q); CHECK("C04", h.empty(), "empty at last"); } });
  done();
}
#if defined(SET_HIST)
KS_ENTRY(heap_tag) { history<Tag, KS_STEPS>(); }
KS_ENTRY(heap_trk) { history<Trk<true>, KS_STEPS>(); }
#ifdef KS_MOVEONLY
KS_ENTRY(heap_moveonly) { history<MoveOnly, KS_STEPS>(); }
#endif
// longer histories of insertions and removals only
template<class E, int K> static void deep() {
  { PQ q; ByKey by; Heap<E> h(by); for (int i = 0; i < K; i++) if (!q.n || ks_choose("op", 2) == 0) put(h, q, false); else take(h, q); HOLDS("C04", h, q); while (q.n) take(h, q); }
  done();
}
KS_ENTRY(deep_tag) { deep<Tag, KS_DEEP>(); }
KS_ENTRY(deep_trk) { deep<Trk<true>, KS_DEEP - 1>(); }
#elif defined(SET_SORT)
// any set of values comes out in order, for the ready-made heaps
#ifndef KS_N
#define KS_N 5
#endif
template<class H, class T, bool Min> static void sorts() {
  { H h; T in[KS_N], out[KS_N]; for (int i = 0; i < KS_N; i++) { in[i] = (T)ks_u32("v"); h.insert(in[i]); }
    T x = (T)ks_u32("x"); int a = 0, b = 0; bool ord = true;
    for (int i = 0; i < KS_N; i++) { out[i] = h.pop(); if (i) ord = ks_and(ord, Min ? !(out[i] < out[i - 1]) : !(out[i - 1] < out[i])); }
    for (int i = 0; i < KS_N; i++) { a += in[i] == x; b += out[i] == x; }
    CHECK("C04", ord, "values come out in order"); CHECK("C04", a == b, "every value comes out as often as it went in"); CHECK("C04", h.empty(), "empty at last"); }
  ks_reach("end");
}
KS_ENTRY(sort_min) { sorts<binary_min_heap<uint32_t>, uint32_t, true>(); }
KS_ENTRY(sort_max) { sorts<binary_max_heap<uint8_t>, uint8_t, false>(); }
KS_ENTRY(sort_signed) { sorts<binary_min_heap<int32_t>, int32_t, true>(); }
#elif defined(SET_BIG)
// any heap of n elements (the keys are assumed to be in heap order, and go in in that order), then a few operations
template<class E> static void big(int n, int dir, int ops, bool drain) {
  { PQ q; ByKey by; by.greater = dir; q.gt = dir; Heap<E> h(by); if (n < 17 && ks_choose("reserve", 2)) h.reserve(n + 4);
    for (int i = 0; i < n; i++) { put(h, q, false); if (i) { uint16_t up = q.key[(i - 1) / 2], k = q.key[i]; ks_assume(dir ? k <= up : up <= k); } }
    for (int i = 0; i < ops; i++) if (!q.n || ks_choose("op", 2) == 0) put(h, q, (i & 1) != 0); else take(h, q);
    HOLDS("C04", h, q);
    if (drain) { while (q.n) take(h, q); CHECK("C04", h.empty(), "empty at last"); } else if (q.n && (n < 17 || ks_tier())) { take(h, q); HOLDS("C04", h, q); } }
  done();
}
#ifndef KS_DRAIN
#define KS_DRAIN 7
#endif
KS_ENTRY(big_drain) { big<Tag>(4 + (int)ks_choose("n", KS_DRAIN - 3), ks_choose("greater", 2), 1, true); }
KS_ENTRY(big_tag) { big<Tag>(KS_DRAIN + 1 + (int)ks_choose("n", 9), ks_choose("greater", 2), 1, false); }
KS_ENTRY(big_trk) { big<Trk<true>>(4 + (int)ks_choose("n", 6), 0, 1, false); }
KS_ENTRY(big_deep) { big<Tag>(17 + 8 * (int)ks_choose("n", 3), 0, 1, false); }
#elif defined(SET_COPY)
template<class E> static void make(Heap<E>& h, PQ& q, int most) { size_t n = ks_choose("n", most + 1); for (size_t i = 0; i < n; i++) put(h, q, false); if (ks_choose("spare", 2)) h.reserve(6); }
template<class E> static void tweak(Heap<E>& h, PQ& q) { switch (ks_choose("tweak", 3)) { case 0: put(h, q, false); break; case 1: if (q.n) take(h, q); break; case 2: h.clear(); q.clear(); break; } }
#define SAME(h, q) do { HOLDS("C07", h, q); } while (0)
template<class E> static void copies() {
  {
    PQ q, none; q.gt = none.gt = ks_choose("greater", 2); ByKey by; by.greater = q.gt; ByKey other; other.greater = !q.gt;
    int ia = ks_choose("alloc", 2) ? 1 : 0; TSpy<E> A0(0), A1(ia);
    Heap<E> a(A0, by); make(a, q, 3);
    auto gone = [&](Heap<E>& b, PQ w) { SAME(b, w); SAME(a, none); PQ p; p.gt = q.gt; put(a, p, false); SAME(a, p); tweak(b, w); SAME(b, w); SAME(a, p); };
    int how = ks_choose("how", 8);
    if constexpr (std::is_copy_constructible_v<E>) {
      auto after = [&](Heap<E>& b, PQ w) { SAME(b, w); SAME(a, q); tweak(b, w); SAME(a, q); SAME(b, w); PQ q2 = q; tweak(a, q2); SAME(a, q2); SAME(b, w); };
      if (how == 0) { Heap<E> b(a); after(b, q); }
      if (how == 1) { Heap<E> b(a, A1); after(b, q); }
      if (how == 2) { Heap<E> b(A1, other); PQ o; o.gt = other.greater; make(b, o, 2); b = a; after(b, q); }
      if (how == 6) { a = *&a; SAME(a, q); tweak(a, q); SAME(a, q); }
    }
    if (how == 3) { Heap<E> b(std::move(a)); gone(b, q); }
    if constexpr (true) { if (how == 4) { Heap<E> b(std::move(a), A1); gone(b, q); } }
    if (how == 5) { Heap<E> b(A1, other); PQ o; o.gt = other.greater; make(b, o, 2); b = std::move(a); gone(b, q); }
    if (how == 7) { a = std::move(*&a); a.clear(); PQ p; p.gt = q.gt; put(a, p, false); SAME(a, p); }
  }
  done();
}
#ifndef KS_CHAIN
#define KS_CHAIN 2
#endif
template<class E> static void chains() {
  chain<Heap<E>, PQ, std::is_copy_constructible_v<E>, TSpy<E>>(KS_CHAIN, [](Heap<E>* p, int i, PQ& m) { ByKey by; by.greater = i == 1; Heap<E>* c = new (p) Heap<E>(TSpy<E>(i), by); m.gt = i == 1; int n = i == 0 ? 3 : i == 1 ? 2 : 0; for (int j = 0; j < n; j++) put(*c, m, false); if (i == 0) c->reserve(4); return c; },
    [](Heap<E>& c, PQ& m) { if (m.n & 1) take(c, m); else put(c, m, true); }, [](Heap<E>& c, PQ& m) { SAME(c, m); }, [](const PQ& m) { PQ q; q.gt = m.gt; return q; });
  done();
}
KS_ENTRY(hchain_tag) { chains<Tag>(); }
KS_ENTRY(hchain_trk) { chains<Trk<true>>(); }
#ifdef KS_MOVEONLY
KS_ENTRY(hchain_moveonly) { chains<MoveOnly>(); }
#endif
KS_ENTRY(hcopy_tag) { copies<Tag>(); }
KS_ENTRY(hcopy_trk) { copies<Trk<true>>(); }
#ifdef KS_MOVEONLY
KS_ENTRY(hcopy_moveonly) { copies<MoveOnly>(); }
#endif
#elif defined(SET_OWN)
template<class E> static void own() {
  { PQ q; ByKey by; Heap<E> h(by); size_t n = 1 + ks_choose("n", 5); for (size_t i = 0; i < n; i++) { put(h, q, false); if (i && n == 5) ks_assume(q.key[(i - 1) / 2] <= q.key[i]); } if (ks_choose("spare", 2)) h.reserve(8);
    size_t i = ks_choose("i", n); uint8_t t = h.begin()[i].tag; auto it = h.insert(h.begin()[i]);
    CHECK("C08", it->tag == t && h.size() == n + 1, "inserted"); CHECK("C08", it->key == q.key[t], "the value the element had is inserted");
    int c = 0; bool v = true; for (auto& e : h) { c += e.tag == t; v = ks_and(v, e.key == q.key[e.tag]); } CHECK("C08", c == 2 && v, "the element is there twice, the others are unchanged"); CHECK("C08", q.first(h.peek().key), "no element precedes the one on top"); }
  done();
}
KS_ENTRY(hown_tag) { own<Tag>(); }
KS_ENTRY(hown_trk) { own<Trk<true>>(); }
#elif defined(SET_CAP)
#ifndef KS_FILL
#define KS_FILL 24
#endif
KS_ENTRY(hcap_step) { // one growth step from any full heap multiplies the capacity
  { ByKey by; size_t n = ks_concretize(ks_range("n", 0, KS_FILL)); Heap<Tag> h(n, by); for (size_t i = 0; i < n; i++) h.insert(Tag{uint16_t(i), 0}); size_t cap = h.capacity(); for (size_t i = n; i < cap; i++) h.insert(Tag{uint16_t(i), 0});
    h.insert(Tag{uint16_t(cap), 0}); CHECK("C09", h.capacity() > cap && h.capacity() >= cap + cap / 4, "growth is geometric"); }
  ks_reach("end");
}
KS_ENTRY(hcap_huge) { // any count up to 2^43
  { using H = binary_heap<Tag, ByKey, HugeSpy<Tag>>; uint64_t n = hugeCount(); ByKey by; Tag x{key(), 1};
    switch (ks_choose("how", 3)) {
      case 0: { H h(by); h.insert(x); h.reserve(n); HUGE_ASKED(n); CHECK("C09", h.capacity() >= n && h.size() == 1, "capacity() is at least what was reserved"); int b = g_huge.nb; h.insert(x); CHECK("C09", g_huge.nb == b && h.size() == 2 && h.peek() == x, "the storage stays where it is while there is room"); break; }
      case 1: { H h(n, by); HUGE_ASKED(n); CHECK("C09", h.capacity() >= n && h.empty(), "capacity() is at least what was asked for"); break; }
      case 2: { H h(by); h.reserve(n); HUGE_ASKED(n); H g(std::move(h)); CHECK("C09", g.capacity() >= n && h.empty(), "capacity moves along"); h = std::move(g); CHECK("C09", h.capacity() >= n, "capacity moves along"); break; }
    } }
  CHECK("C06", g_huge.nlive == 0, "nothing remains allocated"); ks_reach("end");
}
KS_ENTRY(hcap_long) { // a long fill
  ks_malloc_cap(1 << 20);
  { ByKey by; Heap<Tag> h(by); constexpr int N = 3000; int before = g_book[0].asks; for (int i = 0; i < N; i++) h.insert(Tag{uint16_t(i), 0}); CHECK("C09", h.capacity() >= h.size() && h.size() == N, "size");
    int lg = 0; while ((1 << lg) < N) lg++; CHECK("C09", g_book[0].asks - before <= 2 * lg + 4, "the number of reallocations is at most logarithmic"); }
  ks_reach("end");
}
KS_ENTRY(hcap_fill) {
  { ByKey by; Heap<Tag> h(by); size_t r = ks_concretize(ks_range("r", 0, 9)); h.reserve(r); int before = g_book[0].asks; for (int i = 0; i < KS_FILL; i++) h.insert(Tag{uint16_t(i), 0});
    int lg = 0; while ((1 << lg) < KS_FILL) lg++; CHECK("C09", g_book[0].asks - before <= 2 * lg + 4, "the number of reallocations is at most logarithmic"); }
  ks_reach("end");
}
#endif
