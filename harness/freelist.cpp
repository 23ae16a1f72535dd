// freelist over a recording allocator: size class, recycling, hand-over on move, release on destruction.
// REACH: served recycled outofrange refused moved released
#include "spy.h"
#include "ktl/allocators/freelist.h"
using namespace ktl;
#ifndef KS_STEPS
#define KS_STEPS 8
#endif
constexpr unsigned F = REFUSE | OWNS | MAXS;
using P = SpyP<F>;
struct Blk { void* p; size_t n; int own; bool live; }; // own: the spy it came from
static SpyS st[2];

// two freelists a and b over two different allocators; moves a <- b
template<size_t Min, size_t Max, int K> static void history(bool withMove) {
  using FLT = freelist<Min, Max, P>;
  Raw<FLT> ra, rb; FLT* a = new (ra.p()) FLT(&st[0]); FLT* b = withMove ? new (rb.p()) FLT(&st[1]) : nullptr;
  int under[2] = {0, 1};            // which spy a and b sit on
  Blk bl[K + 2]; int nb = 0, live = 0;
  void* fr[2][K + 2]; int nf[2] = {0, 0};   // free blocks of a and b
  if (withMove) { // both start with one recycled block and one live one
    for (int k = 0; k < 2; k++) {
      FLT& x = k ? *b : *a; void* p = x.allocate(Max); void* q = x.allocate(Max);
      if (!p || !q) { st[0].dead = st[1].dead = false; ks_assume(0); }
      x.deallocate(q, Max); fr[k][nf[k]++] = q; bl[nb++] = Blk{p, Max, k, true}; live++;
    }
  }
  for (int step = 0; step < K; step++) {
    int nops = 1 + live + (withMove && b ? 3 : 0);
    int op = (int)ks_choose("op", nops);
    if (op == 0) {
      size_t n = ks_u64("n");
      SpyS& s = st[under[0]]; int asks = s.asks, frees = s.frees;
      void* q = a->allocate(n);
      CHECK("B01", s.frees == frees, "allocate gives nothing back");
      if (!ks_split(ks_and(n > Min, n <= Max))) {
        ks_reach("outofrange");
        CHECK("B01", q == nullptr, "sizes outside (Min, Max] are refused");
        CHECK("B01", s.asks == asks, "sizes outside (Min, Max] do not reach the underlying allocator");
        continue;
      }
      if (nf[0]) {
        ks_reach("recycled");
        CHECK("B01", s.asks == asks, "a free block is reused before new memory is requested");
        int f = -1; for (int i = 0; i < nf[0]; i++) if (ks_split(fr[0][i] == q)) f = i;
        CHECK("B01", f >= 0, "the block comes from the free list");
        if (f < 0) return;
        for (int i = f; i + 1 < nf[0]; i++) fr[0][i] = fr[0][i + 1];
        nf[0]--;
      } else {
        CHECK("B01", s.asks == asks + 1, "the underlying allocator is asked once");
        CHECK("B01", s.lastN == Max, "the underlying allocator is asked for Max bytes");
        CHECK("B01", q == s.lastP, "its answer is returned");
      }
      if (!ks_split(q != nullptr)) { ks_reach("refused"); continue; }
      ks_reach("served");
      CHECK("B01", ks_addr_ok(q, Max), "Max bytes are usable");
      for (int i = 0; i < nb; i++) if (bl[i].live) CHECK("B01", bl[i].p != q, "the block is not live elsewhere");
      memset(q, 0xEE, Max);
      bl[nb++] = Blk{q, n, 0, true}; live++;
    } else if (op <= live) {
      int i = 0, k = op; for (;; i++) if (bl[i].live && --k == 0) break;
      SpyS& s = st[under[bl[i].own]]; int asks = s.asks, frees = s.frees;
      (bl[i].own ? b : a)->deallocate(bl[i].p, bl[i].n);
      CHECK("B01", s.asks == asks && s.frees == frees, "deallocate keeps the block on the free list");
      fr[bl[i].own][nf[bl[i].own]++] = bl[i].p; bl[i].live = false; live--;
    } else {
      ks_reach("moved");
      int k = op - live;
      if (k == 1) { // a = move(b): a's free blocks go back, b's are taken over; blocks of a still live stay with their allocator
        for (int i = 0; i < nb; i++) if (bl[i].live && bl[i].own == 0) { a->deallocate(bl[i].p, bl[i].n); fr[0][nf[0]++] = bl[i].p; bl[i].live = false; live--; }
        int before = st[under[0]].frees;
        *a = std::move(*b);
        CHECK("B01", st[under[0]].frees - before == nf[0], "move-assignment gives every free block back once");
        CHECK("B01", st[0].nlive + st[1].nlive == live + nf[1], "the blocks of the source are kept");
        under[0] = under[1]; nf[0] = nf[1]; for (int i = 0; i < nf[1]; i++) fr[0][i] = fr[1][i]; nf[1] = 0;
        for (int i = 0; i < nb; i++) if (bl[i].own == 1) bl[i].own = 0;
        b->~FLT(); b = nullptr;
      } else if (k == 2) { // construct c from b, put it in b's place
        Raw<FLT> rc; FLT* c = new (rc.p()) FLT(std::move(*b)); b->~FLT();
        CHECK("B01", st[1].frees == 0 || under[1] != 1, "a moved-from freelist gives nothing back");
        b = new (rb.p()) FLT(std::move(*c)); c->~FLT();
      } else { // self-move keeps every block accounted for
        for (int i = 0; i < nb; i++) if (bl[i].live && bl[i].own == 1) { b->deallocate(bl[i].p, bl[i].n); fr[1][nf[1]++] = bl[i].p; bl[i].live = false; live--; }
        FLT& self = *b; *b = std::move(self);
        nf[1] = st[under[1]].nlive; // kept or given back, never lost or returned twice
        b->~FLT();
        CHECK("B01", st[under[1]].nlive == 0, "after a self-move nothing is lost");
        b = nullptr;
      }
    }
  }
  for (int i = 0; i < nb; i++) if (bl[i].live) { (bl[i].own ? b : a)->deallocate(bl[i].p, bl[i].n); live--; }
  if (b) b->~FLT();
  a->~FLT();
  ks_reach("released");
  CHECK("B01", st[0].nlive == 0 && st[1].nlive == 0, "destruction gives every free block back");
  CHECK("B01", ks_heap_live() == 0, "nothing remains allocated");
}
KS_ENTRY(f0_16) { history<0, 16, KS_STEPS>(false); }
KS_ENTRY(f16_64) { history<16, 64, KS_STEPS>(false); }
KS_ENTRY(f0_8) { history<0, 8, KS_STEPS>(false); }
KS_ENTRY(f24_25) { history<24, 25, KS_STEPS>(false); }
KS_ENTRY(f31_8) { history<31, 8, 2>(false); ks_reach("served"); }
KS_ENTRY(move0_16) { history<0, 16, KS_STEPS - 2>(true); }
KS_ENTRY(move16_64) { history<16, 64, KS_STEPS - 2>(true); }
// many blocks: given back in any rotation of either order, all or all but one of them, and taken again
template<size_t Min, size_t Max> static void longrun() {
  using FLT = freelist<Min, Max, P>; constexpr int N = 12;
  Raw<FLT> ra; FLT* a = new (ra.p()) FLT(&st[0]);
  int n = ks_choose("few", 2) ? 5 : N; void* p[N + 1]; size_t sz = ks_u64("n"); ks_assume(ks_and(sz > Min, sz <= Max));
  for (int i = 0; i < n; i++) { p[i] = a->allocate(sz); if (!ks_split(p[i] != nullptr)) { ks_assume(0); } memset(p[i], 0x11, Max); }
  ks_reach("served");
  int rot = (int)ks_choose("rot", n), rev = (int)ks_choose("rev", 2), keep = (int)ks_choose("keep", 2) ? (int)ks_choose("which", n) : -1;
  int frees = st[0].frees, k = 0; void* fr[N];
  for (int i = 0; i < n; i++) { int j = rev ? (rot + n - i) % n : (rot + i) % n; if (j == keep) continue; a->deallocate(p[j], sz); fr[k++] = p[j]; }
  CHECK("B01", st[0].frees == frees, "deallocate keeps the block on the free list");
  int asks = st[0].asks; int again = ks_choose("again", 2) ? k : k / 2; bool used[N] = {};
  for (int i = 0; i < again; i++) {
    void* q = a->allocate(sz); int f = -1; for (int j = 0; j < k; j++) if (fr[j] == q) f = j;
    CHECK("B01", f >= 0 && !used[f], "each free block is reused once"); if (f < 0) return; used[f] = true; memset(q, 0x77, Max);
  }
  CHECK("B01", st[0].asks == asks, "a free block is reused before new memory is requested"); ks_reach("recycled");
  if (again == k) { void* q = a->allocate(sz); CHECK("B01", st[0].asks == asks + 1, "then the underlying allocator is asked"); if (q) a->deallocate(q, sz); }
  for (int j = 0; j < k; j++) if (used[j]) a->deallocate(fr[j], sz);
  if (keep >= 0) a->deallocate(p[keep], sz);
  a->~FLT(); CHECK("B01", st[0].nlive == 0, "destruction gives every free block back"); CHECK("B01", ks_heap_live() == 0, "nothing remains allocated"); ks_reach("released");
  ks_reach("outofrange"); ks_reach("refused"); ks_reach("moved");
}
KS_ENTRY(long0_16) { longrun<0, 16>(); }
KS_ENTRY(long16_64) { longrun<16, 64>(); }
// size classes of every kind
KS_ENTRY(f63_64) { history<63, 64, 4>(false); ks_reach("moved"); }
KS_ENTRY(f8_256) { history<8, 256, 4>(false); ks_reach("moved"); }
KS_ENTRY(f255_1024) { history<255, 1024, 4>(false); ks_reach("moved"); }
KS_ENTRY(f0_2048) { history<0, 2048, 4>(false); ks_reach("moved"); }
