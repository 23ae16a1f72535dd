// containers of sizes around and beyond what 8 and 16 bits can count: C01 C02 C06 C07 C08 C09 (trivial_vector, trivial_array), C04 C05 (binary_heap)
// REACH: end
#include <algorithm>
#include "cont.h"
#include "ktl/containers/trivial_array.h"
#include "ktl/containers/trivial_vector.h"
#include "ktl/containers/binary_heap.h"
using namespace ktl;
static constexpr size_t SZ[] = {200, 254, 255, 256, 257, 300, 511, 512, 513, 32767, 32768, 65535, 65536, 65537, 70000};
static constexpr int NSZ = sizeof(SZ) / sizeof(*SZ);
constexpr size_t MAXN = 70700;
static void setup() { ks_malloc_cap(1 << 20); }
static void done() { CHECK("C06", liveBlocks() == 0 && ks_heap_live() == 0, "nothing remains allocated"); ks_reach("end"); }
// the values: every element differs from those 1, 255, 256, 257, 65535, 65536 before it
template<class T> struct Ref { // the abstract sequence, and one more for a second container
  alignas(T) uint8_t raw[(MAXN + 8) * sizeof(T)]; size_t n;
  T* v() { return reinterpret_cast<T*>(raw); } const T* v() const { return reinterpret_cast<const T*>(raw); }
  void ins(size_t at, const T& x) { memmove(v() + at + 1, v() + at, (n - at) * sizeof(T)); v()[at] = x; n++; }
  void del(size_t a, size_t b) { memmove(v() + a, v() + b, (n - b) * sizeof(T)); n -= b - a; }
};
template<class T> static void fill(T* p, size_t n, uint32_t seed) { uint8_t* b = reinterpret_cast<uint8_t*>(p); uint32_t x = seed; for (size_t i = 0; i < n * sizeof(T); i++) { if ((i & 3) == 0) x = x * 1664525u + 1013904223u; b[i] = uint8_t(x >> (24 - 8 * (i & 3) / 2)); } for (size_t i : {size_t(0), size_t(2), size_t(128), size_t(255), size_t(256), size_t(65535), size_t(65536), n - 65}) if (i < n) p[i] = val<T>(); } // some are arbitrary
// contents of c: those of w, except that the elements in [f, t) are not specified; s: where symbolic elements are (compared one by one)
template<class C, class T> static void same(const char* what, C& c, const Ref<T>& w, size_t f, size_t t, const size_t* s, int ns) {
  const C& k = c;
  if (!(k.size() == w.n && k.empty() == (w.n == 0))) ks_fail(KS_PROP ": size() and empty() agree with the number of elements");
  if (!(k.data() == k.begin() && c.data() == c.begin() && size_t(k.end() - k.begin()) == w.n && size_t(c.end() - c.begin()) == w.n && size_t(k.rend() - k.rbegin()) == w.n)) ks_fail(KS_PROP ": data(), begin() and end() delimit the elements");
  size_t at = 0; bool ok = true;
  auto run = [&](size_t a, size_t b) { if (b > f && a < t) { if (a < f) ok = ks_and(ok, memcmp(k.data() + a, w.v() + a, (f - a) * sizeof(T)) == 0); a = t; } if (a < b) ok = ks_and(ok, memcmp(k.data() + a, w.v() + a, (b - a) * sizeof(T)) == 0); };
  for (int i = 0; i <= ns; i++) { size_t e = i < ns ? s[i] : w.n; run(at, e); if (i < ns) { ks_check(k.data()[e] == w.v()[e], KS_PROP ": the elements are those of the sequence"); at = e + 1; } }
  if (!ok) ks_fail(KS_PROP ": the elements are those of the sequence");
  for (size_t i : {size_t(0), size_t(1), size_t(127), size_t(128), size_t(255), size_t(256), size_t(257), size_t(32768), size_t(65535), size_t(65536), w.n - 1}) if (i < w.n && (i < f || i >= t)) { bool e = ks_and(k[i] == w.v()[i], ks_and(c[i] == w.v()[i], ks_and(k.at(i) == w.v()[i], ks_and(k.begin()[i] == w.v()[i], *(k.rbegin() + (w.n - 1 - i)) == w.v()[i])))); ks_check(e, KS_PROP ": indexing yields the elements"); }
}
#define SAME1(P, c, w, f, t, ...) do { if constexpr (ON(P)) { size_t s_[] = {__VA_ARGS__}; same(P, c, w, f, t, s_, sizeof(s_) / sizeof(*s_)); } } while (0)
#define SAME0(P, c, w, f, t) do { if constexpr (ON(P)) same(P, c, w, f, t, (const size_t*)nullptr, 0); } while (0)
static size_t place(size_t n) { size_t c[] = {0, 1, n / 2, 255, 256, 65535, 65536, n - 1, n}; size_t i = c[ks_choose("place", 9)]; if (i > n) { i = n; } return i; }
template<class T> static Ref<T>& world() { static Ref<T> w; return w; }
template<class T> static T* source() { alignas(T) static uint8_t s[(MAXN + 8) * sizeof(T)]; return reinterpret_cast<T*>(s); }
#if defined(SET_VEC)
template<class T> using Vec = trivial_vector<T, TSpy<T>>;
template<class T> static void one(Vec<T>& c, Ref<T>& w) { // one operation of every kind
  size_t n = w.n, cap = c.capacity(); const T* at = c.data(); bool room = true; T* src = source<T>();
  switch (ks_choose("op", 11)) {
    case 0: { T x = val<T>(); room = n < cap; auto it = c.push_back(x); CHECK("C01", size_t(it - c.begin()) == n, "push_back returns an iterator to the element"); w.ins(n, x); SAME1("C01", c, w, 0, 0, n); break; }
    case 1: { T x = val<T>(); room = n < cap; auto it = c.emplace_back(x); CHECK("C01", size_t(it - c.begin()) == n, "emplace_back returns an iterator to the element"); w.ins(n, x); SAME1("C01", c, w, 0, 0, n); break; }
    case 2: { size_t i = place(n); T x = val<T>(); room = n < cap; auto it = c.emplace(c.begin() + i, x); CHECK("C01", size_t(it - c.begin()) == i, "emplace returns an iterator to the element"); w.ins(i, x); SAME1("C01", c, w, 0, 0, i); break; }
    case 3: { size_t i = place(n); if (i == n) i--; auto it = c.erase(c.begin() + i); CHECK("C01", size_t(it - c.begin()) == i, "erase returns an iterator to the element after the erased one"); w.del(i, i + 1); SAME0("C01", c, w, 0, 0); break; }
    case 4: { size_t i = place(n), k = ks_choose("all", 2) ? n - i : (n - i) / 2; auto it = c.erase(c.begin() + i, c.begin() + i + k); CHECK("C01", size_t(it - c.begin()) == i, "erase returns an iterator to the element after the erased ones"); w.del(i, i + k); SAME0("C01", c, w, 0, 0); break; }
    case 5: { size_t k = ks_choose("many", 2) ? 600 : 255 + ks_choose("k", 3); room = n + k <= cap; auto it = c.push_back(src + 17, src + 17 + k); CHECK("C01", size_t(it - c.begin()) == n, "push_back of a range returns an iterator to the first element added"); memcpy(w.v() + n, src + 17, k * sizeof(T)); w.n += k; SAME0("C01", c, w, 0, 0); break; }
    case 6: { size_t k = ks_choose("many", 2) ? 600 : 1; room = n + k <= cap; c.resize(n + k); w.n += k; SAME0("C01", c, w, n, w.n); c.resize(n - 3); w.n = n - 3; SAME0("C01", c, w, 0, 0); break; }
    case 7: { T x = c.pop_back(); CHECK("C01", x == w.v()[n - 1], "pop_back returns the last element"); w.n--; SAME0("C01", c, w, 0, 0); break; }
    case 8: { size_t k = n + 600 * ks_choose("more", 2); room = k <= cap; c.reserve(k); CHECK("C09", c.capacity() >= k, "capacity() is at least what was reserved"); SAME0("C01", c, w, 0, 0); break; }
    case 9: { size_t i = place(n); if (i == n) i--; T x = val<T>(); switch (ks_choose("via", 4)) { case 0: c[i] = x; break; case 1: c.at(i) = x; break; case 2: *(c.begin() + i) = x; break; default: *(c.rend() - 1 - i) = x; } w.v()[i] = x; SAME1("C01", c, w, 0, 0, i); break; }
    case 10: { c.clear(); w.n = 0; room = 300 <= cap; CHECK("C01", c.size() == 0 && c.empty(), "empty after clear()"); c.push_back(src, src + 300); memcpy(w.v(), src, 300 * sizeof(T)); w.n = 300; SAME0("C01", c, w, 0, 0); break; }
  }
  CHECK("C09", c.capacity() >= c.size(), "capacity() is not below size()");
  CHECK("C09", c.capacity() >= cap, "capacity() never shrinks");
  if (room) CHECK("C09", c.data() == at, "the storage stays where it is while there is room");
}
template<class T, class F> static void built(F f) {
  setup(); ks_fuel(60000000); T* src = source<T>(); Ref<T>& w = world<T>(); size_t n = SZ[ks_choose("n", NSZ)]; fill(src, n + 64, 7); memcpy(w.v(), src, n * sizeof(T)); w.n = n;
  { TSpy<T> al(1);
    switch (ks_choose("fill", 6)) {
      case 0: { Vec<T> c(src, src + n, al); f(c, w); break; }
      case 1: { Vec<T> c(n, al); memcpy(c.data(), src, n * sizeof(T)); f(c, w); break; }
      case 2: { Vec<T> c(al); c.reserve(n + 4); c.push_back(src, src + n); f(c, w); break; }
      case 3: { Vec<T> c(al); c.resize(n); std::copy(src, src + n, c.begin()); f(c, w); break; }
      case 4: { if (n > 600 && n != 65537) return; Vec<T> c(al); for (size_t i = 0; i < n; i++) c.push_back(src[i]); f(c, w); break; }
      case 5: { T x = src[3]; Vec<T> c(n, x, al); for (size_t i = 0; i < n; i++) w.v()[i] = x; f(c, w); break; }
    } }
  done();
}
KS_ENTRY(vvast_u8) { built<uint8_t>([](auto& c, auto& w) { SAME0("C01", c, w, 0, 0); one<uint8_t>(c, w); }); }
KS_ENTRY(vvast_odd) { built<Odd>([](auto& c, auto& w) { SAME0("C01", c, w, 0, 0); one<Odd>(c, w); }); }
#elif defined(SET_ARR)
template<class T> using Arr = trivial_array<T, TSpy<T>>;
template<class T> static void avast() {
  setup(); ks_fuel(60000000); T* src = source<T>(); Ref<T>& w = world<T>(); size_t n = SZ[ks_choose("n", NSZ)]; fill(src, MAXN, 7); memcpy(w.v(), src, n * sizeof(T)); w.n = n;
  { TSpy<T> al(1);
    static constexpr size_t FEW[] = {255, 256, 300, 65535, 65537}; auto to = [](int k) { return k ? FEW[ks_choose("to", 5)] : SZ[ks_choose("to", NSZ)]; };
    auto f = [&](Arr<T>& c) {
      SAME0("C02", c, w, 0, 0);
      for (int k = 0; k < 2; k++) switch (ks_choose("op", 4)) {
        case 0: { size_t q = to(k); c.resize(q); size_t was = w.n; w.n = q; SAME0("C02", c, w, was < q ? was : q, q); if (was < q) { memcpy(c.data() + was, src, (q - was) * sizeof(T)); memcpy(w.v() + was, src, (q - was) * sizeof(T)); } break; }
        case 1: { size_t q = to(k); if (q > n) q = n; c.assign(src + 5, src + 5 + q); memcpy(w.v(), src + 5, q * sizeof(T)); w.n = q; SAME0("C02", c, w, 0, 0); break; }
        case 2: { size_t i = place(w.n); if (i == w.n) i--; T x = src[1]; switch ((k + w.n) & 3) { case 0: c[i] = x; break; case 1: c.at(i) = x; break; case 2: *(c.begin() + i) = x; break; default: *(c.rend() - 1 - i) = x; } w.v()[i] = x; SAME0("C02", c, w, 0, 0); break; }
        case 3: { Arr<T> d(c, al); SAME0("C02", d, w, 0, 0); c = std::move(d); SAME0("C02", c, w, 0, 0); break; }
      } };
    switch (ks_choose("fill", 4)) {
      case 0: { Arr<T> c(src, src + n, al); f(c); break; }
      case 1: { Arr<T> c(n, al); memcpy(c.data(), src, n * sizeof(T)); f(c); break; }
      case 2: { T x = src[3]; Arr<T> c(n, x, al); for (size_t i = 0; i < n; i++) w.v()[i] = x; f(c); break; }
      case 3: { Arr<T> c(al); c.assign(src, src + n); f(c); break; }
    } }
  done();
}
KS_ENTRY(avast_u8) { avast<uint8_t>(); }
KS_ENTRY(avast_odd) { avast<Odd>(); }
#elif defined(SET_COPY)
// every form of copy and move of large containers, onto empty, smaller and larger ones
template<class C, class T> static void vastcopy(bool vector) {
  setup(); ks_fuel(60000000); T* src = source<T>(); static Ref<T> w, none, o; size_t n = SZ[ks_choose("n", NSZ)]; fill(src, MAXN, 7); memcpy(w.v(), src, n * sizeof(T)); w.n = n; none.n = 0;
  { int ia = ks_choose("alloc", 2) ? 1 : 0; TSpy<T> A0(0), A1(ia); C a(src, src + n, A0); size_t m = 0;
    auto other = [&]() { static constexpr size_t O[] = {0, 3, 256, 300, 66000}; m = O[ks_choose("other", 5)]; };
    auto after = [&](C& b) { SAME0("C07", b, w, 0, 0); SAME0("C07", a, w, 0, 0); CHECK("C07", b.data() != a.data(), "a copy has its own storage"); T x = src[9]; size_t i = place(n); if (i == n) i--; b[i] = x; SAME0("C07", a, w, 0, 0); a[n - 1] = x; w.v()[i] = x; SAME0("C07", b, w, 0, 0); };
    auto gone = [&](C& b) { SAME0("C07", b, w, 0, 0); SAME0("C07", a, none, 0, 0); a.resize(300); CHECK("C07", a.size() == 300, "usable after it was moved from"); a[299] = src[9]; SAME0("C07", b, w, 0, 0); };
    switch (ks_choose("how", 6)) {
      case 0: { C b(a); after(b); break; }
      case 1: { C b(a, A1); after(b); break; }
      case 2: { other(); C b(src + 1, src + 1 + m, A1); b = a; after(b); break; }
      case 3: { C b(std::move(a)); gone(b); break; }
      case 4: { C b(std::move(a), A1); gone(b); break; }
      case 5: { other(); C b(src + 1, src + 1 + m, A1); b = std::move(a); gone(b); break; }
    } }
  done();
}
KS_ENTRY(cvast_vec_u8) { vastcopy<trivial_vector<uint8_t, TSpy<uint8_t>>, uint8_t>(true); }
KS_ENTRY(cvast_vec_u32) { vastcopy<trivial_vector<uint32_t, TSpy<uint32_t>>, uint32_t>(true); }
KS_ENTRY(cvast_arr_u8) { vastcopy<trivial_array<uint8_t, TSpy<uint8_t>>, uint8_t>(false); }
KS_ENTRY(cvast_arr_u32) { vastcopy<trivial_array<uint32_t, TSpy<uint32_t>>, uint32_t>(false); }
#elif defined(SET_OWN)
// insertion of one of the vector's own elements into a large full vector, or one with room
template<class T> static void ownvast() {
  setup(); ks_fuel(60000000); T* src = source<T>(); Ref<T>& w = world<T>(); size_t n = SZ[ks_choose("n", NSZ)]; fill(src, n + 64, 7); memcpy(w.v(), src, n * sizeof(T)); w.n = n;
  { TSpy<T> al(1); trivial_vector<T, TSpy<T>> c(src, src + n, al); if (ks_choose("spare", 2)) c.reserve(n + 9); size_t i = place(n); if (i == n) i--; T x = w.v()[i];
    switch (ks_choose("how", 4)) {
      case 0: c.push_back(c[i]); w.ins(n, x); break;
      case 1: c.push_back(std::move(c[i])); w.ins(n, x); break;
      case 2: c.emplace_back(c[i]); w.ins(n, x); break;
      case 3: { size_t at = place(n); c.emplace(c.begin() + at, c[i]); w.ins(at, x); break; }
    }
    SAME0("C08", c, w, 0, 0); }
  ks_reach("end");
}
KS_ENTRY(ovast_u8) { ownvast<uint8_t>(); }
KS_ENTRY(ovast_odd) { ownvast<Odd>(); }
#elif defined(SET_HEAP)
// large heaps with keys in several arrangements, drained to a sorted sequence
struct Item { static int64_t alive; uint32_t key, tag; bool moved = false;
  Item(uint32_t k, uint32_t t) : key(k), tag(t) { alive++; } Item(const Item& o) : key(o.key), tag(o.tag) { o.value(); alive++; } Item(Item&& o) noexcept : key(o.key), tag(o.tag) { o.value(); alive++; o.moved = true; }
  Item& operator=(const Item& o) { o.value(); key = o.key; tag = o.tag; moved = false; return *this; } Item& operator=(Item&& o) noexcept { o.value(); key = o.key; tag = o.tag; moved = false; o.moved = true; return *this; } ~Item() { alive--; }
  void value() const { if (moved) ks_fail(KS_PROP ": an element is read after it was moved from"); } };
int64_t Item::alive = 0;
struct Plain { uint32_t key, tag; };
struct Less { template<class E> bool operator()(const E& a, const E& b) const { return a.key < b.key; } };
static uint32_t keyOf(int kind, uint32_t i, uint32_t n) { switch (kind) { case 0: return i; case 1: return n - i; case 2: return (i * 2654435761u) >> 12; case 3: return (i * 40503u) & 15; default: return 5; } }
template<class E> static void heapvast(size_t n, bool reserve, bool copy) {
  setup(); ks_fuel(n > 1000 ? 400000000 : 60000000); int kind = ks_choose("kind", 5); static uint8_t seen[MAXN]; using H = binary_heap<E, Less, TSpy<E>>; uint64_t sum = 0;
  { Less by; H h(TSpy<E>(1), by); if (reserve) h.reserve(n); for (size_t i = 0; i < n; i++) { uint32_t k = keyOf(kind, i, n); sum += k; auto it = h.insert(E{k, (uint32_t)i}); if (!(it->tag == i && it->key == k)) ks_fail(KS_PROP ": insert returns an iterator to the element"); }
    if (h.size() != n) ks_fail(KS_PROP ": size() is the number of elements");
    auto drain = [&](H& g) { uint64_t s = 0; for (size_t i = 0; i < n; i++) seen[i] = 0; uint32_t last = 0; for (size_t i = 0; i < n; i++) { uint32_t top = g.peek().key; E e = g.pop(); if (e.key != top) ks_fail(KS_PROP ": pop returns the element on top"); if (e.key < last) ks_fail(KS_PROP ": values come out in order"); last = e.key; if (e.tag >= n || seen[e.tag]) ks_fail(KS_PROP ": every value comes out as often as it went in"); seen[e.tag] = 1; s += e.key; if (g.size() != n - 1 - i) ks_fail(KS_PROP ": size() is the number of elements"); } if (s != sum) ks_fail(KS_PROP ": the elements are unchanged"); if (!g.empty()) ks_fail(KS_PROP ": empty at last"); };
    if constexpr (std::is_same_v<E, Item>) CHECK("C05", Item::alive == (int64_t)n, "as many elements are alive as the heap holds");
    if (copy) switch (ks_choose("how", 5)) {
      case 0: { H g(h); drain(g); break; }
      case 1: { H g(TSpy<E>(2), by); for (int i = 0; i < 300; i++) g.insert(E{1, 1}); g = h; drain(g); break; }
      case 2: { H g(std::move(h)); drain(g); return; }
      case 3: { H g(std::move(h), TSpy<E>(2)); drain(g); return; }
      case 4: { H g(TSpy<E>(2), by); for (int i = 0; i < 300; i++) g.insert(E{1, 1}); g = std::move(h); drain(g); return; }
    }
    if (copy && ks_choose("clear", 2)) { h.clear(); if (!h.empty()) ks_fail(KS_PROP ": empty after clear()"); if constexpr (std::is_same_v<E, Item>) CHECK("C05", Item::alive == 0, "clear() destroys every element"); } else drain(h); }
  if constexpr (std::is_same_v<E, Item>) CHECK("C05", Item::alive == 0, "every element was destroyed");
  done();
}
KS_ENTRY(hvast_plain) { static constexpr size_t S[] = {40, 100, 255, 256, 257, 300, 513}; heapvast<Plain>(S[ks_choose("n", 7)], ks_choose("reserve", 2), false); }
KS_ENTRY(hvast_item) { static constexpr size_t S[] = {255, 257, 300}; heapvast<Item>(S[ks_choose("n", 3)], ks_choose("reserve", 2), true); }
// copies and moves of and onto heaps of more than 65536 elements
KS_ENTRY(hvast_many) {
  constexpr size_t N = 66000; setup(); ks_fuel(400000000); using H = binary_heap<Item, Less, TSpy<Item>>; Less by;
  auto up = [&](H& h, size_t n, uint32_t k) { h.reserve(n + 8); for (size_t i = 0; i < n; i++) h.insert(Item(k + (uint32_t)i, (uint32_t)i)); };
  auto is = [&](H& h, size_t n, uint32_t k) { CHECK("C05", h.size() == n, "size() is the number of elements"); for (uint32_t i = 0; i < 3; i++) { Item e = h.pop(); CHECK("C05", e.key == k + i && e.tag == i, "values come out in order"); } };
  { H h(TSpy<Item>(1), by); up(h, N, 7); CHECK("C05", Item::alive == (int64_t)N, "as many elements are alive as the heap holds");
    switch (ks_choose("how", 6)) {
      case 0: { H g(h); CHECK("C05", Item::alive == 2 * (int64_t)N, "a copy has as many elements"); is(g, N, 7); break; }
      case 1: { H g(TSpy<Item>(2), by); up(g, 5, 1); g = h; CHECK("C05", Item::alive == 2 * (int64_t)N, "a copy has as many elements"); is(g, N, 7); break; }
      case 2: { H g(TSpy<Item>(2), by); up(g, 5, 1); h = g; CHECK("C05", Item::alive == 10, "what is assigned over is destroyed"); is(h, 5, 1); break; }
      case 3: { H g(TSpy<Item>(2), by); up(g, 5, 1); h = std::move(g); CHECK("C05", Item::alive == 5, "what is assigned over is destroyed"); is(h, 5, 1); break; }
      case 4: { H g(std::move(h), TSpy<Item>(2)); CHECK("C05", Item::alive == (int64_t)N, "moving neither makes nor loses elements"); is(g, N, 7); break; }
      case 5: h.clear(); CHECK("C05", Item::alive == 0, "clear() destroys every element"); up(h, 5, 1); is(h, 5, 1); break;
    } }
  CHECK("C05", Item::alive == 0, "every element was destroyed"); done();
}
KS_ENTRY(hvast_long) { heapvast<Plain>(66000, false, false); }
#endif
