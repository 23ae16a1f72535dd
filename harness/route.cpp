// fallback and segragator: which member is asked, with which size, and which member gets a block back.
// REACH: served freed
// REACH[B02,A03]: refused
// REACH[B03]: none
#include "spy.h"
#include "ktl/allocators/fallback.h"
#include "ktl/allocators/segragator.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 6
#endif
#ifndef KS_MORE
#define KS_MORE 2
#endif
static constexpr int M_MAX = 7;
// view of the M spies below a tree
struct View { SpyS* s[M_MAX]; int m; int asks[M_MAX], frees[M_MAX];
  void snap() { for (int i = 0; i < m; i++) { asks[i] = s[i]->asks; frees[i] = s[i]->frees; } } };
struct Blk { void* p; size_t n; int who; bool live; };

// Expect(n, i): is member i the next one to be asked, given that those before it refused?
template<bool SEG, int K, class A> static void history(A& a, View v, const size_t* thr) {
  Blk b[K]; int nb = 0, live = 0;
  for (int step = 0; step < K; step++) {
    int op = step == 0 ? 0 : (int)ks_choose("op", 1 + live);
    if (op == 0) {
      size_t n = ks_u64("n");
      v.snap();
      void* q = a.allocate(n);
      int who = -1;
      if constexpr (SEG) {
        int e = v.m - 1; // first listed allocator whose threshold is not below the size
        for (int i = 0; i + 1 < v.m; i++) if (ks_split(n <= thr[i])) { e = i; break; }
        for (int i = 0; i < v.m; i++) {
          CHECK("B03", v.s[i]->asks - v.asks[i] == (i == e), "exactly the member responsible for the size is asked, once");
        }
        CHECK("B03", v.s[e]->lastN == n, "the size is passed on unchanged");
        CHECK("B03", q == v.s[e]->lastP, "the member's answer is returned");
        who = e;
      } else {
        int e = 0;
        for (;; e++) {
          if (e == v.m) { CHECK("B02", q == nullptr, "null once every member refused"); break; }
          CHECK("B02", v.s[e]->asks - v.asks[e] == 1, "each member is asked once, in the listed order, until one serves");
          CHECK("B02", v.s[e]->lastN == n, "the size is passed on unchanged");
          CHECK("B02", e == 0 || v.s[e]->lastAsk > v.s[e - 1]->lastAsk, "members are asked in the listed order");
          if (v.s[e]->lastP != nullptr) { CHECK("B02", q == v.s[e]->lastP, "the serving member's block is returned"); who = e; break; }
        }
        for (int i = e + 1; i < v.m; i++) CHECK("B02", v.s[i]->asks == v.asks[i], "nobody is asked after a member has served");
      }
      for (int i = 0; i < v.m; i++) CHECK("B02", v.s[i]->frees == v.frees[i], "allocate gives nothing back");
      if (!ks_split(q != nullptr)) { ks_reach("refused"); continue; }
      ks_reach("served");
      if (SEG) ks_reach("none");
      b[nb++] = Blk{q, n, who, true}; live++;
    } else {
      int i = 0, k = op; for (;; i++) if (b[i].live && --k == 0) break;
      v.snap();
      a.deallocate(b[i].p, b[i].n); // the spies check who gets it and with which size
      for (int j = 0; j < v.m; j++) ks_check(v.s[j]->frees - v.frees[j] == (j == b[i].who) && v.s[j]->asks == v.asks[j], KS_PROP ": the block goes back once, to the member that produced it, and nobody else is involved");
      b[i].live = false; live--;
      ks_reach("freed");
    }
  }
  for (int i = 0; i < nb; i++) if (b[i].live) { a.deallocate(b[i].p, b[i].n); ks_reach("freed"); }
  for (int j = 0; j < v.m; j++) ks_check(v.s[j]->nlive == 0, KS_PROP ": every block was given back");
  ks_check(ks_heap_live() == 0, KS_PROP ": nothing remains allocated");
}
constexpr unsigned FL = OWNS | REFUSE, LAST = REFUSE;
template<class... S> static View view() { View v; v.m = 0; ((v.s[v.m++] = &S::s), ...); return v; }
// a local object of allocator type A
#define FB(name, K, T, ...) KS_ENTRY(name) { T a; history<false, K>(a, view<__VA_ARGS__>(), nullptr); }
using S0 = Spy<0, FL>; using S1 = Spy<1, FL>; using S2 = Spy<2, FL>; using S3 = Spy<3, FL>; using S4 = Spy<4, FL>; using S5 = Spy<5, FL>;
using L1 = Spy<1, LAST>; using L2 = Spy<2, LAST>; using L3 = Spy<3, LAST>; using L4 = Spy<4, LAST>; using L5 = Spy<5, LAST>;
using E0 = S0;
using Fb2 = fallback<S0, L1>; using Fb3l = fallback<fallback<S0, S1>, L2>; using Fb3r = fallback<S0, fallback<S1, L2>>;
FB(fallback2, KS_STEPS, Fb2, S0, L1)
FB(fallback3left, 3 + KS_MORE, Fb3l, S0, S1, L2)
FB(fallback3right, 3 + KS_MORE, Fb3r, S0, S1, L2)
using Bmin3 = fallback_builder_min<S0, S1, L2>; using Bmax3 = fallback_builder_max<S0, S1, L2>;
using Bmin4 = fallback_builder_min<S0, S1, S2, L3>; using Bmax4 = fallback_builder_max<S0, S1, S2, L3>;
using Bmin5 = fallback_builder_min<S0, S1, S2, S3, L4>; using Bmax5 = fallback_builder_max<S0, S1, S2, S3, L4>;
using Bmin2 = fallback_builder_min<S0, L1>; using Bmax1 = fallback_builder_max<L1>; using Bmax6 = fallback_builder_max<S0, S1, S2, S3, S4, L5>; using Bmin6 = fallback_builder_min<S0, S1, S2, S3, S4, L5>;
FB(fallback_min2, 3 + KS_MORE, Bmin2, S0, L1)
FB(fallback_max1, 2 + KS_MORE, Bmax1, L1)
FB(fallback_min3, 3 + KS_MORE, Bmin3, S0, S1, L2)
FB(fallback_max3, 3 + KS_MORE, Bmax3, S0, S1, L2)
FB(fallback_min4, 2 + KS_MORE - 1, Bmin4, S0, S1, S2, L3)
FB(fallback_max4, 2 + KS_MORE - 1, Bmax4, S0, S1, S2, L3)
FB(fallback_min5, 2 + KS_MORE - 1, Bmin5, S0, S1, S2, S3, L4)
FB(fallback_max5, 2 + KS_MORE - 1, Bmax5, S0, S1, S2, S3, L4)
FB(fallback_min6, 2 + KS_MORE - 1, Bmin6, S0, S1, S2, S3, S4, L5)
FB(fallback_max6, 2 + KS_MORE - 1, Bmax6, S0, S1, S2, S3, S4, L5)

#define SG(name, K, T, THR, ...) KS_ENTRY(name) { static constexpr size_t thr[] = THR; T a; history<true, K>(a, view<__VA_ARGS__>(), thr); }
#define TH(...) { __VA_ARGS__ }
using Q0 = Spy<0, REFUSE>; using Q1 = Spy<1, REFUSE>; using Q2 = Spy<2, REFUSE>; using Q3 = Spy<3, REFUSE>; using Q4 = Spy<4, REFUSE>; using Q5 = Spy<5, REFUSE>; using Q6 = Spy<6, REFUSE>;
using Sg16 = segragator<16, Q0, Q1>; using Sg0 = segragator<0, Q0, Q1>; using SgMax = segragator<~size_t(0), Q0, Q1>;
using Sg3l = segragator<64, segragator<16, Q0, Q1>, Q2>; using Sg3r = segragator<16, Q0, segragator<64, Q1, Q2>>;
SG(segragator16, KS_STEPS, Sg16, TH(16), Q0, Q1)
SG(segragator0, KS_STEPS, Sg0, TH(0), Q0, Q1)
SG(segragatorMax, 3 + KS_MORE, SgMax, TH(~size_t(0)), Q0, Q1)
SG(segragator3left, 3 + KS_MORE, Sg3l, TH(16, 64), Q0, Q1, Q2)
SG(segragator3right, 3 + KS_MORE, Sg3r, TH(16, 64), Q0, Q1, Q2)
template<size_t N> using T_ = threshold<N>;
using Gmin1 = segragator_builder_min<Q0>; using Gmin2 = segragator_builder_min<Q0, T_<16>, Q1>; using Gmax2 = segragator_builder_max<Q0, T_<16>, Q1>;
using Gmin3 = segragator_builder_min<Q0, T_<16>, Q1, T_<64>, Q2>; using Gmax3 = segragator_builder_max<Q0, T_<16>, Q1, T_<64>, Q2>;
using Gmin4 = segragator_builder_min<Q0, T_<16>, Q1, T_<64>, Q2, T_<256>, Q3>; using Gmax4 = segragator_builder_max<Q0, T_<16>, Q1, T_<64>, Q2, T_<256>, Q3>;
using Gmin5 = segragator_builder_min<Q0, T_<8>, Q1, T_<16>, Q2, T_<100>, Q3, T_<1024>, Q4>; using Gmax5 = segragator_builder_max<Q0, T_<8>, Q1, T_<16>, Q2, T_<100>, Q3, T_<1024>, Q4>;
using Gmin6 = segragator_builder_min<Q0, T_<8>, Q1, T_<16>, Q2, T_<100>, Q3, T_<1024>, Q4, T_<2048>, Q5>; using Gmax6 = segragator_builder_max<Q0, T_<8>, Q1, T_<16>, Q2, T_<100>, Q3, T_<1024>, Q4, T_<2048>, Q5>;
using Gmin7 = segragator_builder_min<Q0, T_<8>, Q1, T_<16>, Q2, T_<100>, Q3, T_<1024>, Q4, T_<2048>, Q5, T_<3000>, Q6>; using Gmax7 = segragator_builder_max<Q0, T_<8>, Q1, T_<16>, Q2, T_<100>, Q3, T_<1024>, Q4, T_<2048>, Q5, T_<3000>, Q6>;
SG(segragator_min1, 2 + KS_MORE, Gmin1, TH(0), Q0)
SG(segragator_min2, 3 + KS_MORE, Gmin2, TH(16), Q0, Q1)
SG(segragator_max2, 3 + KS_MORE, Gmax2, TH(16), Q0, Q1)
SG(segragator_min3, 3 + KS_MORE, Gmin3, TH(16, 64), Q0, Q1, Q2)
SG(segragator_max3, 3 + KS_MORE, Gmax3, TH(16, 64), Q0, Q1, Q2)
SG(segragator_min4, 2 + KS_MORE, Gmin4, TH(16, 64, 256), Q0, Q1, Q2, Q3)
SG(segragator_max4, 2 + KS_MORE, Gmax4, TH(16, 64, 256), Q0, Q1, Q2, Q3)
SG(segragator_min5, 2 + KS_MORE, Gmin5, TH(8, 16, 100, 1024), Q0, Q1, Q2, Q3, Q4)
SG(segragator_max5, 2 + KS_MORE, Gmax5, TH(8, 16, 100, 1024), Q0, Q1, Q2, Q3, Q4)
SG(segragator_min6, 2 + KS_MORE, Gmin6, TH(8, 16, 100, 1024, 2048), Q0, Q1, Q2, Q3, Q4, Q5)
SG(segragator_max6, 2 + KS_MORE, Gmax6, TH(8, 16, 100, 1024, 2048), Q0, Q1, Q2, Q3, Q4, Q5)
SG(segragator_min7, 2 + KS_MORE, Gmin7, TH(8, 16, 100, 1024, 2048, 3000), Q0, Q1, Q2, Q3, Q4, Q5, Q6)
SG(segragator_max7, 2 + KS_MORE, Gmax7, TH(8, 16, 100, 1024, 2048, 3000), Q0, Q1, Q2, Q3, Q4, Q5, Q6)
// every way of constructing, copying and assigning a tree keeps each member where it belongs
template<class T, bool SEG> static void forms() {
  static SpyS s0, s1, t0, t1;
  using P = SpyP<FL>;
  static constexpr size_t thr[] = {16};
  View v; v.m = 2; v.s[0] = &s0; v.s[1] = &s1;
  P p0(&s0), p1(&s1), q0(&t0), q1(&t1);
  switch (ks_choose("form", 7)) {
    case 0: { T a(p0, p1); history<SEG, 2 + KS_MORE>(a, v, thr); break; }
    case 1: { T a(&s0, &s1); history<SEG, 2 + KS_MORE>(a, v, thr); break; }
    case 2: { T a(std::make_tuple(&s0), std::make_tuple(&s1)); history<SEG, 2 + KS_MORE>(a, v, thr); break; }
    case 3: { T o(p0, p1); T a(o); history<SEG, 2 + KS_MORE>(a, v, thr); break; }
    case 4: { T o(p0, p1); T a(std::move(o)); history<SEG, 2 + KS_MORE>(a, v, thr); break; }
    case 5: { T o(p0, p1); T a(q0, q1); a = o; history<SEG, 2 + KS_MORE>(a, v, thr); break; }
    case 6: { T o(p0, p1); T a(q0, q1); a = std::move(o); history<SEG, 2 + KS_MORE>(a, v, thr); break; }
  }
}
KS_ENTRY(fallback_forms) { forms<fallback<SpyP<FL>, SpyP<FL>>, false>(); }
KS_ENTRY(segragator_forms) { forms<segragator<16, SpyP<FL>, SpyP<FL>>, true>(); }
// a default-constructed second member
struct DefP : SpyP<FL> { static inline SpyS d{}; DefP() : SpyP<FL>(&d) {} using SpyP<FL>::SpyP; };
template<class T, bool SEG> static void half() {
  static SpyS s0; static constexpr size_t thr[] = {16};
  View v; v.m = 2; v.s[0] = &s0; v.s[1] = &DefP::d;
  if (ks_choose("form", 2)) { T a(SpyP<FL>{&s0}); history<SEG, 2 + KS_MORE>(a, v, thr); } else { T a(std::make_tuple(&s0)); history<SEG, 2 + KS_MORE>(a, v, thr); }
}
KS_ENTRY(fallback_half) { half<fallback<SpyP<FL>, DefP>, false>(); }
KS_ENTRY(segragator_half) { half<segragator<16, SpyP<FL>, DefP>, true>(); }
