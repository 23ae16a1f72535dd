// The platform paths of utility/aligned_malloc.h, selected with the very macros the header tests.
// REACH: ok null newed
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <memory>
#include <new>
#include <string>
#include <stdlib.h>
#include <unistd.h>
#include <mm_malloc.h>
#include "common.h"
#if defined(PATH_POSIX)
#undef __GLIBC__
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#if !(defined(_POSIX_ADVISORY_INFO) && _POSIX_ADVISORY_INFO > 0)
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 200809L
#endif
#elif defined(PATH_MM)
#undef __GLIBC__
#define SSE_INSTR_SET 2
#elif defined(PATH_MSC)
#undef __GLIBC__
#undef _GNU_SOURCE
#undef _XOPEN_SOURCE
#define _MSC_VER 1939
static void* msc_block; static void* msc_raw;
static void* _aligned_malloc(size_t n, size_t a) { // documented: any size, power-of-two alignment
  KS_CHECK(a != 0 && (a & (a - 1)) == 0, KS_PROP ": _aligned_malloc is given a power-of-two alignment");
  void* r = nullptr; if (posix_memalign(&r, a, n)) return nullptr; msc_raw = r; return r;
}
static void _aligned_free(void* p) { KS_CHECK(p == nullptr || p == msc_raw, KS_PROP ": _aligned_free is given the block"); free(p); }
#elif defined(PATH_PORTABLE)
#undef __GLIBC__
#undef _GNU_SOURCE
#undef _XOPEN_SOURCE
#endif
#if defined(MALLOC8) // a platform whose malloc aligns to 8 only
static void* raw8; static void* given8;
static void* malloc8(size_t n) { if (n > 2048) return nullptr; char* r = (char*)::malloc(n + 8); if (!r) return r; raw8 = r; given8 = r + 8; return given8; }
static void free8(void* p) { if (!p) return; KS_CHECK(p == given8, KS_PROP ": the pointer passed to free is the one malloc gave"); ::free(raw8); }
#define malloc malloc8
#define free free8
#endif
#include "ktl/utility/aligned_malloc.h"
#if defined(PATH_POSIX) && (KTL_HAS_MALLOC_ALIGNED || KTL_HAS_MM_MALLOC || !KTL_HAS_POSIX_MEMALIGN)
#error wrong path
#elif defined(PATH_MM) && (KTL_HAS_MALLOC_ALIGNED || !KTL_HAS_MM_MALLOC)
#error wrong path
#elif (defined(PATH_PORTABLE) || defined(PATH_MSC)) && (KTL_HAS_MALLOC_ALIGNED || KTL_HAS_MM_MALLOC || KTL_HAS_POSIX_MEMALIGN)
#error wrong path
#elif defined(PATH_MALLOC) && !KTL_HAS_MALLOC_ALIGNED
#error wrong path
#endif
#undef malloc
#undef free
using namespace ktl::detail;
#ifdef PATH_MALLOC
static constexpr size_t Aligns[] = {8, 16};
#else
static constexpr size_t Aligns[] = {8, 16, 32, 64, 128, 256, 1024};
#endif
KS_ENTRY(alloc_free) {
  ks_malloc_may_fail(1);
  size_t a = Aligns[ks_choose("alignment", sizeof(Aligns) / sizeof(Aligns[0]))];
  size_t n = ks_u64("n");
  void* p = aligned_malloc(n, a);
  if (!ks_split(p != nullptr)) { ks_reach("null"); CHECK("D02", ks_heap_live() == 0, "a refused request leaves no system block"); aligned_free(p); return; }
  ks_reach("ok");
  CHECK("D02", (addr(p) & (a - 1)) == 0, "aligned as requested");
  CHECK("D02", ks_heap_live() == 1, "one system block");
  CHECK("D02", ks_addr_ok(p, n), "the block has the requested size");
  CHECK("D02", n <= 4096 + 1024, "no block for a size the system cannot serve");
  if (ks_split(n != 0)) *(volatile uint8_t*)p = 1;
  aligned_free(p);
  CHECK("D02", ks_heap_live() == 0, "freeing releases exactly the system block");
}
#if !defined(MALLOC8) && !defined(PATH_MSC)
KS_ENTRY(two) {
  size_t a = Aligns[ks_choose("alignment", sizeof(Aligns) / sizeof(Aligns[0]) > 3 ? 3 : 2)];
  static constexpr size_t Menu[] = {0, 1, 24};
  size_t n = Menu[ks_choose("n", 3)], m = Menu[ks_choose("m", 3)];
  uint8_t* p = (uint8_t*)aligned_malloc(n, a); uint8_t* q = (uint8_t*)aligned_malloc(m, a);
  CHECK("D02", p != nullptr && q != nullptr, "the system has memory");
  CHECK("D02", ks_or(ks_or(n == 0, m == 0), ks_or(addr(p) + n <= addr(q), addr(q) + m <= addr(p))), "blocks do not overlap");
  memset(p, 0x11, n); memset(q, 0x22, m);
  for (size_t i = 0; i < n; i++) CHECK("D02", p[i] == 0x11, "contents kept");
  bool first = ks_choose("first", 2);
  aligned_free(first ? p : q); CHECK("D02", ks_heap_live() == 1, "only one block is released");
  aligned_free(first ? q : p); CHECK("D02", ks_heap_live() == 0, "all released");
}
#endif
struct Obj { uint64_t v; uint32_t* cnt; Obj(uint64_t x, uint32_t* c) : v(x), cnt(c) { ++*cnt; } ~Obj() { --*cnt; } };
KS_ENTRY(new_delete) {
  size_t a = Aligns[ks_choose("alignment", sizeof(Aligns) / sizeof(Aligns[0]))];
  uint32_t live = 0; uint64_t v = ks_u64("v");
  Obj* o = aligned_new<Obj>(a, v, &live);
  CHECK("D02", o != nullptr && (addr(o) & (a - 1)) == 0, "aligned_new aligns");
  CHECK("D02", o->v == v && live == 1, "aligned_new constructs once");
  ks_reach("newed");
  aligned_delete(o);
  CHECK("D02", live == 0, "aligned_delete destroys once");
  CHECK("D02", ks_heap_live() == 0, "aligned_delete releases the block");
}
