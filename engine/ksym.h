// Interface between harnesses and the symbolic executor (and, with -DKS_NATIVE, the native replayer).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
  // inputs: arbitrary values
  uint64_t ks_u64(const char* name);
  uint32_t ks_u32(const char* name);
  uint16_t ks_u16(const char* name);
  uint8_t  ks_u8(const char* name);
  bool     ks_bool(const char* name);
  uint64_t ks_range(const char* name, uint64_t lo, uint64_t hi);   // arbitrary value in [lo, hi], symbolic
  uint64_t ks_choose(const char* name, uint64_t n);                // 0..n-1, explored by forking
  void     ks_assume(int c);
  void     ks_check(int c, const char* msg);                       // must hold for every input
  [[noreturn]] void ks_fail(const char* msg);
  uint64_t ks_concretize(uint64_t v);                              // fork over every value v can take
  int      ks_split(uint64_t c);                                   // fork on c != 0
  void     ks_reach(const char* label);                            // vacuity witness: must be reached
  void     ks_malloc_may_fail(int times);                          // up to `times` system allocations may fail, anywhere
  void     ks_malloc_cap(uint64_t bytes);                          // system allocations above this fail
  void     ks_fuel(uint64_t instructions);                         // more than this on one path counts as not terminating (default 2000000)
  uint64_t ks_heap_live();                                         // number of live system heap blocks
  uint64_t ks_block_size(const void* p);                           // size of the live heap block starting at p, else 0
  int      ks_addr_ok(const void* p, uint64_t n);                  // [p,p+n) lies in one live object
  void     ks_poison(void* p, uint64_t n);                         // mark uninitialised
  int      ks_spawn(void* (*fn)(void*), void* arg);
  void     ks_join(int t);
  void     ks_note(const char* name, uint64_t v);
  void     ks_symbolic_memory(int on);                             // encode symbolic offsets as conditionals (heap starts zeroed)
  int      ks_tier();                                              // 0 quick, 1 thorough
}
#define KS_ENTRY(name) extern "C" void entry_##name()
#define KS_CHECK(c, msg) ks_check((c) ? 1 : 0, msg)
// A boolean without control flow, so that the executor does not fork on && and ||
static inline bool ks_and(bool a, bool b) { return bool(int(a) & int(b)); }
static inline bool ks_or(bool a, bool b) { return bool(int(a) | int(b)); }
static inline bool ks_imp(bool a, bool b) { return bool(int(!a) | int(b)); }
