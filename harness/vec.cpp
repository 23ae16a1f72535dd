// trivial_vector: C01 (sequence), C06 (storage), C07 (copies and moves), C08 (own elements), C09 (capacity)
// REACH: end
#include "cont.h"
#include "ktl/containers/trivial_vector.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 2
#endif
#ifdef SET_LARGE
constexpr int N = 200;
#elif defined(SET_OWN)
constexpr int N = 80;
#else
constexpr int N = 20;
#endif
template<class T> using Vec = trivial_vector<T, TSpy<T>>;
template<class T> using M = Seq<T, N>;
// the vector c is constructed with one of the constructors, holding up to 3 elements
template<class T, class F> static void built(F f) {
  M<T> m; T x[3] = {val<T>(), val<T>(), val<T>()}; TSpy<T> al(1);
  switch (ks_choose("ctor", 9)) {
    case 0: { Vec<T> c; f(c, m); break; }
    case 1: { Vec<T> c(al); f(c, m); break; }
    case 2: { size_t n = ks_choose("n", 4); Vec<T> c(n, al); m.resize(n); f(c, m); break; }
    case 3: { size_t n = ks_choose("n", 4); Vec<T> c(n, x[0], al); for (size_t i = 0; i < n; i++) m.add(x[0]); f(c, m); break; }
    case 4: { Vec<T> c({x[0], x[1], x[2]}, al); for (int i = 0; i < 3; i++) m.add(x[i]); f(c, m); break; }
    case 5: { Vec<T> c(std::initializer_list<T>{}); f(c, m); break; }
    case 6: { size_t n = ks_choose("n", 4); Vec<T> c(x, x + n, al); for (size_t i = 0; i < n; i++) m.add(x[i]); f(c, m); break; }
    case 7: { Vec<T> d(x, x + 2); d.reserve(5); Vec<T> c(d); m.add(x[0]); m.add(x[1]); f(c, m); break; }
    case 8: { Vec<T> d(x, x + 2); d.reserve(5); Vec<T> c(std::move(d)); m.add(x[0]); m.add(x[1]); f(c, m); break; }
  }
}
template<class T> static void step(Vec<T>& c, M<T>& m) {
  Book& bk = g_book[1]; int asks = g_book[0].asks + bk.asks; const T* at = c.data(); size_t cap = c.capacity(); bool adds = true, room = false;
  switch (ks_choose("op", 12)) {
    case 0: { T x = val<T>(); room = m.n + 1 <= cap; auto it = c.push_back(x); CHECK("C01", size_t(it - c.begin()) == m.n, "push_back returns an iterator to the element"); m.add(x); break; }
    case 1: { T x = val<T>(); room = m.n + 1 <= cap; T y = x; auto it = c.push_back(std::move(y)); CHECK("C01", size_t(it - c.begin()) == m.n, "push_back returns an iterator to the element"); m.add(x); break; }
    case 2: { T x[3] = {val<T>(), val<T>(), val<T>()}; size_t n = ks_choose("k", 4); room = m.n + n <= cap; auto it = c.push_back(x, x + n); CHECK("C01", size_t(it - c.begin()) == m.n, "push_back of a range returns an iterator to the first element added"); for (size_t i = 0; i < n; i++) m.add(x[i]); break; }
    case 3: { T x = val<T>(); room = m.n + 1 <= cap; auto it = c.emplace_back(x); CHECK("C01", size_t(it - c.begin()) == m.n, "emplace_back returns an iterator to the element"); m.add(x); break; }
    case 4: { T x = val<T>(); size_t i = ks_range("at", 0, m.n); i = ks_concretize(i); room = m.n + 1 <= cap; auto it = c.emplace(c.begin() + i, x); CHECK("C01", size_t(it - c.begin()) == i, "emplace returns an iterator to the element"); m.ins(i, x); break; }
    case 5: { if (!m.n) return; size_t i = ks_concretize(ks_range("at", 0, m.n - 1)); auto it = c.erase(c.begin() + i); CHECK("C01", size_t(it - c.begin()) == i, "erase returns an iterator to the element after the erased one"); m.del(i, i + 1); room = true; break; }
    case 6: { size_t i = ks_concretize(ks_range("from", 0, m.n)), j = ks_concretize(ks_range("to", i, m.n)); auto it = c.erase(c.begin() + i, c.begin() + j); CHECK("C01", size_t(it - c.begin()) == i, "erase returns an iterator to the element after the erased ones"); m.del(i, j); room = true; break; }
    case 7: { if (!m.n) return; T x = c.pop_back(); if (m.known[m.n - 1]) CHECK("C01", x == m.v[m.n - 1], "pop_back returns the last element"); m.n--; room = true; break; }
    case 8: { size_t n = ks_choose("n", 7); room = n <= cap; c.resize(n); m.resize(n); break; }
    case 9: { size_t n = ks_range("n", 0, 9); room = ks_split(n <= cap); c.reserve(n); CHECK("C09", c.capacity() >= n, "capacity() is at least what was reserved"); break; }
    case 10: { c.clear(); m.n = 0; room = true; break; }
    case 11: { if (!m.n) return; T x = val<T>(); size_t i = ks_concretize(ks_range("at", 0, m.n - 1)); switch (ks_choose("via", 4)) { case 0: c[i] = x; break; case 1: c.at(i) = x; break; case 2: *(c.begin() + i) = x; break; default: *(c.rend() - 1 - i) = x; } m.v[i] = x; m.known[i] = true; room = true; break; }
  }
  CHECK("C09", c.capacity() >= c.size(), "capacity() is not below size()");
  CHECK("C09", c.capacity() >= cap, "capacity() never shrinks");
  if (room && adds) CHECK("C09", c.data() == at && g_book[0].asks + bk.asks == asks, "the storage stays where it is while there is room");
  AGREE("C01", c, m); AGREE("C09", c, m);
}
template<class T> static void done() { CHECK("C06", liveBlocks() == 0 && ks_heap_live() == 0, "nothing remains allocated"); ks_reach("end"); }
template<class T, int K> static void history() {
  built<T>([](Vec<T>& c, M<T>& m) { AGREE("C01", c, m); for (int i = 0; i < K; i++) step<T>(c, m); });
  done<T>();
}
#if defined(SET_HIST)
KS_ENTRY(vec_u32) { history<uint32_t, KS_STEPS>(); }
KS_ENTRY(vec_u8) { history<uint8_t, KS_STEPS>(); }
KS_ENTRY(vec_wide) { history<Wide, KS_STEPS>(); }
KS_ENTRY(vec_odd) { history<Odd, KS_STEPS>(); }
#elif defined(SET_LARGE)
template<class T> static void leap(Vec<T>& c, M<T>& m) {
  static constexpr size_t K[] = {1, 7, 40, 64}; size_t k = K[ks_choose("k", 4)]; size_t cap = c.capacity(); const T* at = c.data(); bool room = m.n + k <= cap;
  switch (ks_choose("leap", 4)) {
    case 0: c.resize(m.n + k); m.resize(m.n + k); break;
    case 1: { T y[64]; for (size_t i = 0; i < k; i++) y[i] = val<T>(); c.push_back(y, y + k); for (size_t i = 0; i < k; i++) m.add(y[i]); break; }
    case 2: c.reserve(m.n + k); CHECK("C09", c.capacity() >= m.n + k, "capacity() is at least what was reserved"); break;
    case 3: { size_t n = m.n / k; room = true; c.resize(n); m.resize(n); break; }
  }
  if (room) CHECK("C09", c.data() == at, "the storage stays where it is while there is room");
  AGREE("C01", c, m); AGREE("C09", c, m);
}
// larger vectors, filled in several ways, full or with room: one operation of every kind at any position
template<class T> static void large() {
  static constexpr size_t L[] = {5, 8, 9, 16, 17, 31, 32, 33, 64}; size_t n = L[ks_choose("n", ks_tier() ? 9 : 8)]; M<T> m; T x[64]; for (size_t i = 0; i < n; i++) m.add(x[i] = val<T>());
  { TSpy<T> al(1); auto act = [&](Vec<T>& c) { if (ks_choose("kind", 2)) step<T>(c, m); else { leap<T>(c, m); if (ks_choose("again", 2)) leap<T>(c, m); } };
    switch (ks_choose("fill", 4)) {
      case 0: { Vec<T> c(al); c.reserve(n); c.push_back(x, x + n); AGREE("C01", c, m); act(c); break; } // no room
      case 1: { Vec<T> c(x, x + n, al); c.reserve(n + 4); AGREE("C01", c, m); act(c); break; }          // room
      case 2: { Vec<T> c(al); for (size_t i = 0; i < n; i++) c.push_back(x[i]); AGREE("C01", c, m); act(c); break; } // as grown
      case 3: { Vec<T> d(x, x + n), c(d, al); d.clear(); AGREE("C01", c, m); act(c); break; }
    } }
  done<T>();
}
KS_ENTRY(large_u8) { large<uint8_t>(); }
KS_ENTRY(large_u64) { large<Wide>(); }
KS_ENTRY(large_odd) { large<Odd>(); }
#elif defined(SET_COPY)
template<class T> static void tweak(Vec<T>& c, M<T>& m) { // a change
  T x = val<T>();
  switch (ks_choose("tweak", 3)) { case 0: c.push_back(x); m.add(x); break; case 1: if (m.n) { c[0] = x; m.v[0] = x; m.known[0] = true; } break; case 2: if (m.n) { c.erase(c.begin()); m.del(0, 1); } break; }
}
template<class T> static void make(Vec<T>& c, M<T>& m, int most) { size_t n = ks_choose("n", most + 1); for (size_t i = 0; i < n; i++) { T x = val<T>(); c.push_back(x); m.add(x); } if (ks_choose("spare", 2)) c.reserve(6); }
#define SAME(c, m) do { AGREE("C07", c, m); } while (0)
template<class T> static void copies() {
  {
    int ia = ks_choose("alloc", 2) ? 1 : 0; TSpy<T> A0(0), A1(ia), A2(2);
    Vec<T> a(A0); M<T> m, none; make(a, m, 3);
    auto after = [&](Vec<T>& b, M<T> w) { // b: a copy
      SAME(b, w); SAME(a, m); tweak(b, w); SAME(a, m); SAME(b, w); M<T> m2 = m; tweak(a, m2); SAME(a, m2); SAME(b, w); };
    auto gone = [&](Vec<T>& b, M<T> w) { // a was moved to b
      SAME(b, w); SAME(a, none); M<T> q; tweak(a, q); SAME(a, q); tweak(b, w); SAME(b, w); SAME(a, q); };
    switch (ks_choose("how", 9)) {
      case 0: { Vec<T> b(a); after(b, m); break; }
      case 1: { Vec<T> b(a, A1); after(b, m); break; }
      case 2: { Vec<T> b(A1); M<T> o; make(b, o, 2); b = a; after(b, m); break; }
      case 3: { Vec<T> b(std::move(a)); gone(b, m); break; }
      case 4: { Vec<T> b(std::move(a), A1); gone(b, m); break; }
      case 5: { Vec<T> b(A1); M<T> o; make(b, o, 2); b = std::move(a); gone(b, m); break; }
      case 6: { a = *&a; SAME(a, m); tweak(a, m); SAME(a, m); break; }
      case 7: { a = std::move(*&a); size_t n = a.size(); CHECK("C07", n <= a.capacity(), "valid after assignment to itself"); a.clear(); M<T> q; tweak(a, q); SAME(a, q); break; }
      case 8: { Vec<T> b(a, A2); Vec<T> d(A1); d = b; M<T> w = m; tweak(b, w); SAME(a, m); SAME(b, w); SAME(d, m); a = std::move(d); SAME(a, m); d = std::move(a); SAME(d, m); break; }
    }
  }
  done<T>();
}
#ifndef KS_CHAIN
#define KS_CHAIN 3
#endif
template<class T> static void chains() {
  chain<Vec<T>, M<T>, true, TSpy<T>>(sizeof(T) == 1 ? KS_CHAIN : KS_CHAIN - 1, [](Vec<T>* p, int i, M<T>& m) { Vec<T>* c = new (p) Vec<T>(TSpy<T>(i)); T x[5] = {val<T>(), val<T>(), val<T>(), val<T>(), val<T>()}; int n = i == 0 ? 5 : i == 1 ? 1 + (int)ks_choose("n", 2) : 0; if (n) { c->push_back(x, x + n); if (i == 0) c->reserve(7); for (int j = 0; j < n; j++) m.add(x[j]); } return c; },
    [](Vec<T>& c, M<T>& m) { T x = val<T>(); if (m.n & 1) { c.erase(c.begin()); m.del(0, 1); } c.push_back(x); m.add(x); c.push_back(x); m.add(x); }, [](Vec<T>& c, M<T>& m) { SAME(c, m); }, [](const M<T>&) { return M<T>(); });
  done<T>();
}
KS_ENTRY(vchain_u8) { chains<uint8_t>(); }
KS_ENTRY(vchain_wide) { chains<Wide>(); }
KS_ENTRY(vcopy_u32) { copies<uint32_t>(); }
KS_ENTRY(vcopy_odd) { copies<Odd>(); }
#elif defined(SET_OWN)
template<class T> static void own(int most, int reps) {
  {
    Vec<T> c; M<T> m; size_t n = most > 4 ? 5 + 3 * ks_choose("n", most / 3 - 1) : 1 + ks_choose("n", 4); for (size_t i = 0; i < n; i++) { T x = val<T>(); c.push_back(x); m.add(x); }
    if (ks_choose("spare", 2)) c.reserve(n + 4); else if (c.capacity() > n) { size_t k = c.capacity() - n; for (size_t i = 0; i < k; i++) { T x = val<T>(); c.push_back(x); m.add(x); } }
    for (int k = 0; k < reps; k++) {
      size_t i = ks_concretize(ks_range("i", 0, m.n - 1)); T x = m.v[i];
      switch (ks_choose("how", 5)) {
        case 0: c.push_back(c[i]); m.add(x); break;
        case 1: c.push_back(std::move(c[i])); m.add(x); break;
        case 2: c.emplace_back(c[i]); m.add(x); break;
        case 3: { size_t at = ks_concretize(ks_range("at", 0, m.n)); c.emplace(c.begin() + at, c[i]); m.ins(at, x); break; }
        case 4: { size_t at = ks_concretize(ks_range("at", 0, m.n)); c.emplace(c.begin() + at, std::move(c[i])); m.ins(at, x); break; }
      }
      AGREE("C08", c, m);
    }
  }
  ks_reach("end");
}
KS_ENTRY(vown_twice) { own<uint32_t>(4, 2); }
KS_ENTRY(vown_big) { own<uint8_t>(ks_tier() ? 34 : 16, 1); }
KS_ENTRY(vown_odd) { own<Odd>(4, 1); }
KS_ENTRY(vown_u32) { own<uint32_t>(4, 1); }
KS_ENTRY(vown_wide) { own<Wide>(4, 1); }
KS_ENTRY(vown_parts) { // arguments that refer to parts of an element
  { Vec<Wide> c; M<Wide> m; for (int i = 0; i < 3; i++) { Wide x = val<Wide>(); c.push_back(x); m.add(x); } if (ks_choose("spare", 2)) c.reserve(8);
    size_t i = ks_choose("i", 3), j = ks_choose("j", 3); Wide x(m.v[i].a, m.v[j].b); if (ks_choose("how", 2)) { c.emplace_back(c[i].a, c[j].b); m.add(x); } else { size_t at = ks_choose("at", 4); c.emplace(c.begin() + at, c[i].a, c[j].b); m.ins(at, x); } AGREE("C08", c, m); }
  ks_reach("end");
}
#elif defined(SET_CAP)
#ifndef KS_FILL
#define KS_FILL 40
#endif
// one growth step from every full vector of up to KS_FILL elements multiplies the capacity
KS_ENTRY(vcap_step) {
  { size_t n = ks_concretize(ks_range("n", 0, KS_FILL)); Vec<uint8_t> c(n); CHECK("C09", c.capacity() >= n && c.size() == n, "size"); 
    size_t cap = c.capacity(); for (size_t i = n; i < cap; i++) c.push_back(1);
    switch (ks_choose("how", 4)) { case 0: c.push_back(ks_u8("v")); break; case 1: c.emplace_back(ks_u8("v")); break; case 2: c.emplace(c.begin(), ks_u8("v")); break; case 3: { uint8_t x[2] = {1, 2}; c.push_back(x, x + 2); break; } }
    CHECK("C09", c.capacity() >= c.size() && c.capacity() >= cap + cap / 4, "growth is geometric"); }
  ks_reach("end");
}
template<class T> static void huge() { // any count up to 2^43
  { using V = trivial_vector<T, HugeSpy<T>>; uint64_t n = hugeCount(); T x = val<T>(), y = val<T>();
    switch (ks_choose("how", 4)) {
      case 0: { V c; c.push_back(x); c.reserve(n); HUGE_ASKED(n); CHECK("C09", c.capacity() >= n, "capacity() is at least what was reserved"); const T* at = c.data(); int b = g_huge.nb; c.push_back(y); CHECK("C09", c.data() == at && g_huge.nb == b && c.size() == 2, "the storage stays where it is while there is room"); CHECK("C09", c[0] == x && c[1] == y, "the elements are kept"); break; }
      case 1: { V c(n); HUGE_ASKED(n); CHECK("C09", c.capacity() >= n && c.size() == n, "as large as asked"); CHECK("C06", addr(c.end()) - addr(c.begin()) == n * sizeof(T), "end() is size() elements on"); break; }
      case 2: { V c; c.push_back(x); c.resize(n); HUGE_ASKED(n); CHECK("C09", c.capacity() >= n && c.size() == n, "as large as asked"); CHECK("C09", c[0] == x, "the elements are kept"); c.resize(1); CHECK("C09", c.size() == 1 && c.capacity() >= n && c[0] == x, "shrinking keeps the storage"); break; }
      case 3: { V c; c.reserve(n); HUGE_ASKED(n); V d(std::move(c)); CHECK("C09", d.capacity() >= n && c.empty(), "capacity moves along"); c = std::move(d); CHECK("C09", c.capacity() >= n, "capacity moves along"); break; }
    } }
  CHECK("C06", g_huge.nlive == 0, "nothing remains allocated"); ks_reach("end");
}
KS_ENTRY(vhuge_u8) { huge<uint8_t>(); }
KS_ENTRY(vhuge_wide) { huge<Wide>(); }
static constexpr size_t Big[] = {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537};
KS_ENTRY(vcap_big) { // and from larger ones
  ks_malloc_cap(1 << 20);
  { size_t n = Big[ks_choose("n", sizeof(Big) / sizeof(*Big))]; Vec<uint8_t> c(n); size_t cap = c.capacity(); CHECK("C09", cap >= n && c.size() == n, "size"); c.resize(cap);
    switch (ks_choose("how", 4)) { case 0: c.push_back(ks_u8("v")); break; case 1: c.emplace_back(ks_u8("v")); break; case 2: c.resize(cap + 1); break; case 3: { uint8_t x[2] = {1, 2}; c.push_back(x, x + 2); break; } }
    CHECK("C09", c.capacity() >= c.size() && c.capacity() >= cap + cap / 4, "growth is geometric"); }
  ks_reach("end");
}
KS_ENTRY(vcap_long) { // a long fill
  ks_malloc_cap(1 << 20);
  { Vec<uint16_t> c; constexpr int N = 5000; int before = g_book[0].asks; for (int i = 0; i < N; i++) c.push_back(uint16_t(i)); CHECK("C09", c.capacity() >= c.size() && c.size() == N, "size");
    int lg = 0; while ((1 << lg) < N) lg++; CHECK("C09", g_book[0].asks - before <= 2 * lg + 4, "the number of reallocations is at most logarithmic"); }
  ks_reach("end");
}
KS_ENTRY(vcap_fill) { // filling from any initial capacity
  { Vec<uint8_t> c; size_t r = ks_concretize(ks_range("r", 0, 9)); c.reserve(r); int before = g_book[0].asks; for (int i = 0; i < KS_FILL; i++) c.push_back(ks_u8("v"));
    int lg = 0; while ((1 << lg) < KS_FILL) lg++; CHECK("C09", g_book[0].asks - before <= 2 * lg + 4, "the number of reallocations is at most logarithmic"); }
  ks_reach("end");
}
#endif
