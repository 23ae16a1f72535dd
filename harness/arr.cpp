// trivial_array: C02 (sequence), C06 (storage), C07 (copies and moves)
// REACH: end
#include <algorithm>
#include "cont.h"
#include "ktl/containers/trivial_array.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 2
#endif
#ifdef SET_LARGE
constexpr int N = 70;
#else
constexpr int N = 12;
#endif
template<class T> using Arr = trivial_array<T, TSpy<T>>;
template<class T> using M = Seq<T, N>;
template<class T, class F> static void built(F f) {
  M<T> m; T x[3] = {val<T>(), val<T>(), val<T>()}; TSpy<T> al(1);
  switch (ks_choose("ctor", 9)) {
    case 0: { Arr<T> c; f(c, m); break; }
    case 1: { Arr<T> c(al); f(c, m); break; }
    case 2: { size_t n = ks_choose("n", 4); Arr<T> c(n, al); m.resize(n); f(c, m); break; }
    case 3: { size_t n = ks_choose("n", 4); Arr<T> c(n, x[0], al); for (size_t i = 0; i < n; i++) m.add(x[0]); f(c, m); break; }
    case 4: { Arr<T> c({x[0], x[1], x[2]}, al); for (int i = 0; i < 3; i++) m.add(x[i]); f(c, m); break; }
    case 5: { Arr<T> c(std::initializer_list<T>{}); f(c, m); break; }
    case 6: { size_t n = ks_choose("n", 4); Arr<T> c(x, x + n, al); for (size_t i = 0; i < n; i++) m.add(x[i]); f(c, m); break; }
    case 7: { Arr<T> d(x, x + 2); Arr<T> c(d); m.add(x[0]); m.add(x[1]); f(c, m); break; }
    case 8: { Arr<T> d(x, x + 2); Arr<T> c(std::move(d)); m.add(x[0]); m.add(x[1]); f(c, m); break; }
  }
}
template<class T> static void step(Arr<T>& c, M<T>& m) {
  switch (ks_choose("op", 3)) {
    case 0: { size_t n = ks_choose("n", 7); c.resize(n); m.resize(n); break; }
    case 1: { T x[5] = {val<T>(), val<T>(), val<T>(), val<T>(), val<T>()}; size_t n = ks_choose("k", 6); c.assign(x, x + n); m.n = 0; for (size_t i = 0; i < n; i++) m.add(x[i]); break; }
    case 2: { if (!m.n) return; T x = val<T>(); size_t i = ks_concretize(ks_range("at", 0, m.n - 1)); switch (ks_choose("via", 4)) { case 0: c[i] = x; break; case 1: c.at(i) = x; break; case 2: *(c.begin() + i) = x; break; default: *(c.rend() - 1 - i) = x; } m.v[i] = x; m.known[i] = true; break; }
  }
  AGREE("C02", c, m);
}
static void done() { CHECK("C06", liveBlocks() == 0 && ks_heap_live() == 0, "nothing remains allocated"); ks_reach("end"); }
#if defined(SET_HIST)
#ifdef KS_MORE
constexpr int MORE = 1;
#else
constexpr int MORE = 0;
#endif
template<class T, int K> static void history() { built<T>([](Arr<T>& c, M<T>& m) { AGREE("C02", c, m); for (int i = 0; i < K + MORE; i++) step<T>(c, m); }); done(); }
KS_ENTRY(arr_u32) { history<uint32_t, KS_STEPS>(); }
KS_ENTRY(arr_u8) { history<uint8_t, KS_STEPS>(); }
KS_ENTRY(arr_wide) { history<Wide, KS_STEPS>(); }
KS_ENTRY(arr_odd) { history<Odd, KS_STEPS>(); }
#elif defined(SET_LARGE)
template<class T> static void large() { // larger arrays
  static constexpr size_t L[] = {5, 8, 17, 33}; size_t n = L[ks_choose("n", 4)]; M<T> m; T x[64]; for (size_t i = 0; i < 64; i++) x[i] = val<T>(); for (size_t i = 0; i < n; i++) m.add(x[i]);
  { TSpy<T> al(1); Arr<T> c(x, x + n, al); AGREE("C02", c, m);
    for (int k = 0; k < 2; k++) switch (ks_choose("op", 4)) {
      case 0: { static constexpr size_t K[] = {1, 7, 32, 64}; size_t q = K[ks_choose("to", 4)]; c.resize(q); m.resize(q); AGREE("C02", c, m); break; }
      case 1: { static constexpr size_t K[] = {1, 7, 32, 64}; size_t q = K[ks_choose("to", 4)]; c.assign(x + 64 - q, x + 64); m.n = 0; for (size_t i = 0; i < q; i++) m.add(x[64 - q + i]); AGREE("C02", c, m); break; }
      case 2: { Arr<T> d(c), e(std::move(d)); c = e; AGREE("C02", c, m); AGREE("C02", e, m); break; }
      case 3: { size_t i = ks_concretize(ks_range("at", 0, m.n - 1)); T y = val<T>(); c[i] = y; m.v[i] = y; m.known[i] = true; AGREE("C02", c, m); break; }
    } }
  done();
}
KS_ENTRY(alarge_u8) { large<uint8_t>(); }
KS_ENTRY(alarge_wide) { large<Wide>(); }
template<class T> static void huge() { // any count up to 2^43
  { using V = trivial_array<T, HugeSpy<T>>; uint64_t n = hugeCount(); T x[2] = {val<T>(), val<T>()};
    switch (ks_choose("how", 3)) {
      case 0: { V c(n); HUGE_ASKED(n); CHECK("C02", c.size() == n && addr(c.end()) - addr(c.begin()) == n * sizeof(T), "as large as asked"); break; }
      case 1: { V c(x, x + 2); c.resize(n); HUGE_ASKED(n); CHECK("C02", c.size() == n && c[0] == x[0] && c[1] == x[1], "as large as asked, the elements are kept"); c.resize(1); CHECK("C02", c.size() == 1 && c[0] == x[0], "the elements are kept"); break; }
      case 2: { V c(n); V d(std::move(c)); CHECK("C02", d.size() == n && c.size() == 0, "the size moves along"); c = std::move(d); CHECK("C02", c.size() == n && d.size() == 0, "the size moves along"); break; }
    } }
  CHECK("C06", g_huge.nlive == 0, "nothing remains allocated"); ks_reach("end");
}
KS_ENTRY(ahuge_u8) { huge<uint8_t>(); }
KS_ENTRY(ahuge_wide) { huge<Wide>(); }
#elif defined(SET_COPY)
template<class T> static void tweak(Arr<T>& c, M<T>& m) {
  T x = val<T>();
  switch (ks_choose("tweak", 3)) { case 0: { T y[2] = {x, x}; c.assign(y, y + 2); m.n = 0; m.add(x); m.add(x); break; } case 1: if (m.n) { c[0] = x; m.v[0] = x; m.known[0] = true; } break; case 2: c.resize(m.n + 1); m.resize(m.n + 1); break; }
}
template<class T> static void make(Arr<T>& c, M<T>& m, int most) { size_t n = ks_choose("n", most + 1); if (!n && ks_choose("never", 2)) return; T x[4] = {val<T>(), val<T>(), val<T>(), val<T>()}; c.assign(x, x + n); for (size_t i = 0; i < n; i++) m.add(x[i]); }
#define SAME(c, m) do { AGREE("C07", c, m); } while (0)
template<class T> static void copies() {
  {
    int ia = ks_choose("alloc", 2) ? 1 : 0; TSpy<T> A0(0), A1(ia), A2(2);
    Arr<T> a(A0); M<T> m, none; make(a, m, 3);
    auto after = [&](Arr<T>& b, M<T> w) { SAME(b, w); SAME(a, m); tweak(b, w); SAME(a, m); SAME(b, w); M<T> m2 = m; tweak(a, m2); SAME(a, m2); SAME(b, w); };
    auto gone = [&](Arr<T>& b, M<T> w) { SAME(b, w); SAME(a, none); M<T> q; tweak(a, q); SAME(a, q); tweak(b, w); SAME(b, w); SAME(a, q); };
    switch (ks_choose("how", 9)) {
      case 0: { Arr<T> b(a); after(b, m); break; }
      case 1: { Arr<T> b(a, A1); after(b, m); break; }
      case 2: { Arr<T> b(A1); M<T> o; make(b, o, 3); b = a; after(b, m); break; }
      case 3: { Arr<T> b(std::move(a)); gone(b, m); break; }
      case 4: { Arr<T> b(std::move(a), A1); gone(b, m); break; }
      case 5: { Arr<T> b(A1); M<T> o; make(b, o, 3); b = std::move(a); gone(b, m); break; }
      case 6: { a = *&a; SAME(a, m); tweak(a, m); SAME(a, m); break; }
      case 7: { a = std::move(*&a); T y[2] = {val<T>(), val<T>()}; a.assign(y, y + 2); M<T> q; q.add(y[0]); q.add(y[1]); SAME(a, q); break; }
      case 8: { Arr<T> b(a, A2); Arr<T> d(A1); d = b; M<T> w = m; tweak(b, w); SAME(a, m); SAME(b, w); SAME(d, m); a = std::move(d); SAME(a, m); d = std::move(a); SAME(d, m); break; }
    }
  }
  done();
}
#ifndef KS_CHAIN
#define KS_CHAIN 3
#endif
template<class T> static void chains() {
  chain<Arr<T>, M<T>, true, TSpy<T>>(sizeof(T) == 1 ? KS_CHAIN : KS_CHAIN - 1, [](Arr<T>* p, int i, M<T>& m) { Arr<T>* c = new (p) Arr<T>(TSpy<T>(i)); T x[5] = {val<T>(), val<T>(), val<T>(), val<T>(), val<T>()}; int n = i == 0 ? 5 : i == 1 ? 1 + (int)ks_choose("n", 2) : 0; if (n) { c->assign(x, x + n); for (int j = 0; j < n; j++) m.add(x[j]); } return c; },
    [](Arr<T>& c, M<T>& m) { T x = val<T>(); c.resize(m.n + 1); m.resize(m.n + 1); c[m.n - 1] = x; m.v[m.n - 1] = x; m.known[m.n - 1] = true; }, [](Arr<T>& c, M<T>& m) { SAME(c, m); }, [](const M<T>&) { return M<T>(); });
  done();
}
KS_ENTRY(achain_u8) { chains<uint8_t>(); }
KS_ENTRY(achain_wide) { chains<Wide>(); }
KS_ENTRY(acopy_u32) { copies<uint32_t>(); }
KS_ENTRY(acopy_odd) { copies<Odd>(); }
#endif
