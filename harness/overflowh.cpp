// overflow: guard bytes and balance reports, observed through a recording stream.
// REACH[B05]: corrupt clean
// REACH[B06]: leak toomany balanced constructs
#include "spy.h"
#include "ktl/allocators/overflow.h"
#include "ktl/allocators/freelist.h"
#include "ktl/allocators/linear_allocator.h"
#include "ktl/allocators/reference.h"
#include "ktl/allocators/type_allocator.h"
using namespace ktl;
// everything written to the stream, as text and numbers
struct Tok { int kind; const char* s; uint64_t v; }; // 0 text, 1 unsigned, 2 signed, 3 pointer
struct Rec {
  Tok t[40]; int n = 0;
  void put(int k, const char* s, uint64_t v) { if (n < 40) t[n++] = Tok{k, s, v}; else ks_fail(KS_PROP ": harness: too much output"); }
  Rec& operator<<(const char* s) { put(0, s, 0); return *this; }
  Rec& operator<<(char c) { put(0, "", 0); return *this; }
  Rec& operator<<(const std::string& s) { put(0, "", 0); return *this; }
  Rec& operator<<(unsigned long v) { put(1, nullptr, v); return *this; }
  Rec& operator<<(unsigned v) { put(1, nullptr, v); return *this; }
  Rec& operator<<(long v) { put(2, nullptr, (uint64_t)v); return *this; }
  Rec& operator<<(int v) { put(2, nullptr, (uint64_t)(int64_t)v); return *this; }
  Rec& operator<<(long long v) { put(2, nullptr, (uint64_t)v); return *this; }
  Rec& operator<<(const void* p) { put(3, nullptr, addr(p)); return *this; }
  Rec& operator<<(Rec& (*f)(Rec&)) { return f(*this); }
  static bool in(const char* hay, const char* nd) { for (; *hay; hay++) { int i = 0; while (nd[i] && hay[i] == nd[i]) i++; if (!nd[i]) return true; } return false; }
  // the number that follows the text nd, anywhere after token `from`; -1: no such text
  int find(const char* nd, int from = 0) const { for (int i = from; i < n; i++) if (t[i].kind == 0 && t[i].s && in(t[i].s, nd)) return i; return -1; }
  bool num(int at, uint64_t& v) const { for (int i = at + 1; i < n; i++) if (t[i].kind == 1 || t[i].kind == 2) { v = t[i].v; return true; } return false; }
};
constexpr unsigned F = REFUSE;
using P = SpyP<F>;
using O = overflow<P, Rec>;
static constexpr int G = 64;
static constexpr size_t Sizes[] = {0, 1, 16, 7, 64, 65, 200, 1000};

static void judge(const Rec& r, int t0, size_t before, size_t after) {
  if (!before && !after) { ks_reach("clean"); CHECK("B05", r.n == t0, "untouched guard bytes: nothing is reported"); return; }
  ks_reach("corrupt");
  CHECK("B05", r.n > t0, "a changed guard byte is reported");
  CHECK("B05", r.find("CORRUPT", t0) >= 0, "the report is a corruption message");
  int b = r.find("Before", t0), a = r.find("After", t0); uint64_t v = 0;
  CHECK("B05", (b >= 0) == (before != 0), "the area before is named if and only if it was changed");
  CHECK("B05", (a >= 0) == (after != 0), "the area after is named if and only if it was changed");
  if (before) CHECK("B05", r.num(b, v) && v == before, "distance of the farthest changed byte before");
  if (after) CHECK("B05", r.num(a, v) && v == after, "distance of the farthest changed byte after");
}
// two guard bytes anywhere get arbitrary values
KS_ENTRY(guard_two) {
  SpyS s; Rec r; Raw<O> ro; O* o = new (ro.p()) O(r, P(&s));
  size_t n = Sizes[ks_choose("n", 8)];
  uint8_t* p = (uint8_t*)o->allocate(n); if (!p) return;
  memset(p, (int)ks_choose("fill", 2) * 0xA5, n);
  int t0 = r.n;
  size_t before = 0, after = 0;
  int i = (int)ks_choose("pos", 2 * G); // 0..63: before, 64..127: after
  static constexpr int Second[] = {-1, 0, 63, 64, 127, 30, 95};
  int j = Second[ks_choose("pos2", 7)];
  for (int k = 0; k < 2; k++) {
    int x = k ? j : i; if (x < 0 || (k && j == i)) continue;
    uint8_t* q = x < G ? p - 1 - x : p + n + (x - G);
    uint8_t old = *q, v = ks_u8("v"); *q = v;
    if (ks_split(v != old)) { size_t d = (x < G ? x : x - G) + 1; if (x < G) { if (d > before) before = d; } else if (d > after) after = d; }
  }
  o->deallocate(p, n);
  judge(r, t0, before, after);
  CHECK("B05", s.nlive == 0, "the block is given back all the same");
}
// all guard bytes arbitrary at once
KS_ENTRY(guard_all) {
  SpyS s; Rec r; Raw<O> ro; O* o = new (ro.p()) O(r, P(&s));
  static constexpr size_t N[] = {8, 0, 33, 500};
  const size_t n = N[ks_choose("n", 4)];
  uint8_t* p = (uint8_t*)o->allocate(n); if (!p) return;
  int t0 = r.n;
  uint64_t before = 0, after = 0;
  for (int x = 0; x < G; x++) { uint8_t* q = p - 1 - x; uint8_t old = *q, v = ks_u8("v"); *q = v; before = v != old ? x + 1 : before; }
  for (int x = 0; x < G; x++) { uint8_t* q = p + n + x; uint8_t old = *q, v = ks_u8("v"); *q = v; after = v != old ? x + 1 : after; }
  o->deallocate(p, n);
  bool any = ks_or(before != 0, after != 0);
  CHECK("B05", (r.n > t0) == any, "reported if and only if a guard byte changed");
  if (ks_split(any)) {
    int b = r.find("Before", t0), a = r.find("After", t0); uint64_t v = 0;
    CHECK("B05", (b >= 0) == (before != 0), "the area before is named if and only if it was changed");
    CHECK("B05", (a >= 0) == (after != 0), "the area after is named if and only if it was changed");
    if (b >= 0) CHECK("B05", r.num(b, v) && v == before, "distance of the farthest changed byte before");
    if (a >= 0) CHECK("B05", r.num(a, v) && v == after, "distance of the farthest changed byte after");
    ks_reach("corrupt");
  } else ks_reach("clean");
}
// the user bytes may hold anything, for every size; two blocks do not disturb each other
KS_ENTRY(user_bytes) {
  SpyS s; Rec r; Raw<O> ro; O* o = new (ro.p()) O(r, P(&s));
  size_t n = ks_range("n", 0, 24), m = ks_choose("m", 3) * 7; n = ks_concretize(n);
  uint8_t* p = (uint8_t*)o->allocate(n); uint8_t* q = (uint8_t*)o->allocate(m); if (!p || !q) return;
  for (size_t i = 0; i < n; i++) p[i] = ks_u8("x");
  for (size_t i = 0; i < m; i++) q[i] = 0xFF;
  CHECK("B05", s.lastN >= m, "the wrapped allocator is asked for at least the size");
  bool f = ks_choose("first", 2);
  o->deallocate(f ? p : q, f ? n : m); o->deallocate(f ? q : p, f ? m : n);
  CHECK("B05", r.n == 0, "writes inside the user bytes are never reported");
  CHECK("B05", s.nlive == 0, "both blocks go back");
  o->~O();
  CHECK("B05", r.n == 0, "a clean history writes nothing");
  ks_reach("clean"); ks_reach("corrupt");
}
// several blocks of one allocator, over new and over recycled memory: each report belongs to the block given back
template<class A, class... X> static void guards(int K, X... x) {
  using OO = overflow<A, Rec>;
  Rec r; Raw<OO> ro; OO* o = new (ro.p()) OO(r, x...);
  static constexpr size_t N[] = {5, 40, 0};
  struct { uint8_t* p; size_t n, before, after; bool live; } b[3] = {};
  int total = 0;
  for (int step = 0; step < K; step++) {
    int i = (int)ks_choose("block", 3);
    if (!b[i].live) {
      size_t n = N[ks_choose("n", ks_tier() ? 3 : 2)]; int t0 = r.n;
      uint8_t* p = (uint8_t*)o->allocate(n); CHECK("B05", r.n == t0, "allocate reports nothing");
      if (!ks_split(p != nullptr)) continue;
      memset(p, (int)ks_choose("fill", 2) ? 0xFD : 0, n);
      b[i] = {p, n, 0, 0, true};
    } else {
      static constexpr int Pos[] = {0, 8, G - 1, G, G + 30, 2 * G - 1};
      int op = (int)ks_choose("op", 7);
      if (op < 6) {
        int x = Pos[op]; uint8_t* q = x < G ? b[i].p - 1 - x : b[i].p + b[i].n + (x - G);
        if (x < G ? b[i].before >= (size_t)x + 1 : b[i].after >= (size_t)(x - G) + 1) continue;
        uint8_t old = *q, v = ks_u8("v"); *q = v;
        if (ks_split(v != old)) { if (x < G) b[i].before = x + 1; else b[i].after = x - G + 1; }
      } else {
        int t0 = r.n; o->deallocate(b[i].p, b[i].n); b[i].live = false;
        judge(r, t0, b[i].before, b[i].after); total += b[i].before || b[i].after;
      }
    }
  }
  for (int i = 0; i < 3; i++) if (b[i].live) { int t0 = r.n; o->deallocate(b[i].p, b[i].n); judge(r, t0, b[i].before, b[i].after); }
  int t0 = r.n; o->~OO(); CHECK("B05", r.n == t0, "corruption alone is not reported again at destruction");
}
KS_ENTRY(guards_new) { SpyS s; guards<P>(ks_tier() ? 5 : 4, P(&s)); }
KS_ENTRY(guards_recycled) { SpyS s; guards<freelist<0, 256, P>>(ks_tier() ? 5 : 4, P(&s)); }
KS_ENTRY(guards_linear) { guards<linear_allocator<512>>(ks_tier() ? 5 : 4); }
// sizes near the top of size_t
KS_ENTRY(huge) {
  SpyS s; Rec r; { O o(r, P(&s));
    size_t n = ks_u64("n"); ks_assume(n > 4096);
    void* p = o.allocate(n);
    ks_check(p == nullptr, KS_PROP ": a size that cannot be served is refused");
    ks_check(r.n == 0, KS_PROP ": a refused request writes nothing");
  }
  CHECK("B06", r.n == 0, "a refused request is not reported as a leak");
  ks_reach("balanced"); ks_reach("clean"); ks_reach("corrupt");
}
struct Obj { uint32_t v; Obj(uint32_t x) : v(x) {} ~Obj() {} };
static void report(const Rec& r, int64_t bytes, int64_t cons) {
  int l = r.find("MEMORY LEAK"), e = r.find("LOGIC ERROR"); uint64_t v = 0;
  if (bytes == 0 && cons == 0) { ks_reach("balanced"); CHECK("B06", r.n == 0, "a balanced history writes nothing"); }
  CHECK("B06", (l >= 0) == (bytes != 0), "leaked memory is reported if and only if the byte counts differ");
  CHECK("B06", (e >= 0) == (cons != 0), "an imbalance is reported if and only if the construct and destroy counts differ");
  if (bytes > 0) { ks_reach("leak"); int a = r.find("Allocated", l); CHECK("B06", a >= 0 && r.num(a, v) && v == (uint64_t)bytes, "the exact number of leaked bytes is stated"); CHECK("B06", r.find("Too many frees") < 0, "a leak is not called too many frees"); }
  if (bytes < 0) { ks_reach("toomany"); int a = r.find("Too many frees"); CHECK("B06", a >= 0 && r.num(a, v) && v == (uint64_t)-bytes, "the exact number of bytes freed too many is stated"); CHECK("B06", r.find("Allocated memory") < 0, "too many frees are not called a leak"); }
  if (cons > 0) { ks_reach("constructs"); int a = r.find("constructor"); CHECK("B06", a >= 0 && r.num(a, v) && v == (uint64_t)cons, "the exact number of missing destroy calls is stated"); CHECK("B06", r.find("destructor") < 0, "and named as constructor calls"); }
  if (cons < 0) { int a = r.find("destructor"); CHECK("B06", a >= 0 && r.num(a, v) && v == (uint64_t)-cons, "the exact number of surplus destroy calls is stated"); CHECK("B06", r.find("constructor") < 0, "and named as destructor calls"); }
}
#ifndef KS_STEPS
#define KS_STEPS 5
#endif
template<unsigned FL, bool Ref> static void balance() {
  using PP = SpyP<FL>; using OO = overflow<PP, Rec>;
  SpyS s; Rec r[2]; int64_t bytes[2] = {0, 0}, cons[2] = {0, 0};
  Raw<OO> ra, rb; OO* o[2] = { new (ra.p()) OO(r[0], PP(&s)), new (rb.p()) OO(r[1], PP(&s)) };
  struct { void* p; size_t n; bool live; } b[KS_STEPS]; int nb = 0, live = 0;
  Raw<Obj> obj;
  for (int step = 0; step < KS_STEPS; step++) {
    int op = (int)ks_choose("op", 3 + 2 * live);
    if (op == 0) {
      static constexpr size_t N[] = {0, 1, 40, 5000, ~size_t(0) - 3};
      size_t n = N[ks_choose("n", 5)]; void* p = o[0]->allocate(n);
      if (ks_split(p != nullptr)) { bytes[0] += (int64_t)n; b[nb].p = p; b[nb].n = n; b[nb].live = true; nb++; live++; }
    } else if (op == 1) { Obj* q = reinterpret_cast<Obj*>(obj.b); if (Ref) reference<OO>(*o[0]).construct(q, 5u); else o[0]->construct(q, 5u); cons[0]++; }
    else if (op == 2) { new (obj.b) Obj(3); Obj* q = reinterpret_cast<Obj*>(obj.b); if (Ref) reference<OO>(*o[0]).destroy(q); else o[0]->destroy(q); cons[0]--; }
    else { // give a block back to the allocator it came from, or to an equal one
      int k = (op - 3) / 2 + 1, who = (op - 3) % 2, i = 0; for (;; i++) if (b[i].live && --k == 0) break;
      o[who]->deallocate(b[i].p, b[i].n); bytes[who] -= (int64_t)b[i].n; b[i].live = false; live--;
    }
  }
  CHECK("B06", r[0].n == 0 && r[1].n == 0, "nothing is reported before destruction");
  o[0]->~OO(); o[1]->~OO();
  for (int k = 0; k < 2; k++) report(r[k], bytes[k], cons[k]);
}
KS_ENTRY(balance) { balance<F, false>(); }
// the wrapped allocator has a construct and/or a destroy of its own: the counts are the same
KS_ENTRY(balance_cd) { balance<CONS | DEST, false>(); }
KS_ENTRY(balance_c) { balance<CONS, true>(); }
KS_ENTRY(balance_d) { balance<DEST, true>(); }
// totals beyond 32 bits and counts beyond 16: one block after another goes to an equal allocator, which gives it back
struct One { uint8_t* m; explicit One(uint8_t* x) : m(x) {} void* allocate(size_t n) noexcept { return n <= (1u << 20) ? m : nullptr; } void deallocate(void* p, size_t) noexcept { ks_check(p == m, KS_PROP ": the block goes back"); }
  bool operator==(const One&) const noexcept { return true; } bool operator!=(const One&) const noexcept { return false; } };
KS_ENTRY(totals) {
  ks_fuel(20000000); static uint8_t mem[1 << 20]; using OO = overflow<One, Rec>; Rec r[2]; int64_t bytes[2] = {0, 0}, cons[2] = {0, 0};
  Raw<OO> ra, rb; OO* o[2] = { new (ra.p()) OO(r[0], One(mem)), new (rb.p()) OO(r[1], One(mem)) };
  static constexpr int N[] = {1, 40, 2047, 2050, 4095, 4097, 8200}; int n = N[ks_choose("blocks", 7)];
  size_t sz = ks_choose("sz", 2) ? (1u << 20) - 128 : (1u << 20) - 1000; int from = (int)ks_choose("from", 2);
  for (int i = 0; i < n; i++) { void* p = o[from]->allocate(sz); bytes[from] += (int64_t)sz; if (!p) return; o[!from]->deallocate(p, sz); bytes[!from] -= (int64_t)sz; }
  static constexpr int C[] = {0, 127, 128, 255, 256, 32768, 65536, 70000}; int c = C[ks_choose("constructs", 8)]; int who = (int)ks_choose("who", 2); Raw<Obj> obj; Obj* q = reinterpret_cast<Obj*>(obj.b);
  for (int i = 0; i < c; i++) { o[who]->construct(q, 5u); cons[who]++; o[!who]->destroy(q); cons[!who]--; }
  CHECK("B06", r[0].n == 0 && r[1].n == 0, "nothing is reported before destruction");
  o[0]->~OO(); o[1]->~OO();
  for (int k = 0; k < 2; k++) report(r[k], bytes[k], cons[k]);
  ks_reach("balanced");
}
// symbolic sizes: the counts are exact for any size the wrapped allocator serves
KS_ENTRY(counts) {
  SpyS s; Rec r[2]; int64_t bytes[2] = {0, 0};
  { O a(r[0], P(&s)), b(r[1], P(&s));
    size_t n = ks_range("n", 0, 12), m = ks_range("m", 0, 12); n = ks_concretize(n); m = ks_concretize(m);
    void* p = a.allocate(n); void* q = a.allocate(m);
    if (!p || !q) { if (p) { a.deallocate(p, n); } if (q) a.deallocate(q, m); }
    else { int k = (int)ks_choose("k", 4); bytes[0] = (int64_t)(n + m); if (k & 1) { a.deallocate(p, n); bytes[0] -= (int64_t)n; } if (k & 2) { b.deallocate(q, m); bytes[1] -= (int64_t)m; } }
  }
  report(r[0], bytes[0], 0); report(r[1], bytes[1], 0);
  ks_reach("constructs");
}
