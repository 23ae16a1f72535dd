// Native replay of a counterexample: the harness runs on the real, natively compiled code with the solver's values.
#include "ksym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <mutex>
#include <unistd.h>
#include <malloc.h>
#include <errno.h>
#include <dlfcn.h>

struct In { std::string n; uint64_t v; };
static std::vector<In>* g_in; static size_t g_pos = 0;
static int g_budget = 0; static uint64_t g_cap = 4096;
static std::recursive_mutex* g_mx;
static std::map<void*, size_t>* g_blocks;
static thread_local bool g_on = false;
static std::map<std::string, int>* g_names;

struct Off { bool o = g_on; Off() { g_on = false; } ~Off() { g_on = o; } }; // the runtime's own allocations are not the program's
static uint64_t next(const char* nm, bool uniq = true) {
  Off off;
  std::string name = nm; if (uniq) { int k = (*g_names)[name]++; if (k) name += "#" + std::to_string(k); }
  if (g_pos >= g_in->size()) return 0; // values not constrained by the path
  In& i = (*g_in)[g_pos++];
  if (i.n != name) { fprintf(stderr, "KS_REPLAY_DIVERGED expected %s got %s\n", i.n.c_str(), name.c_str()); _exit(78); }
  return i.v;
}
extern "C" {
uint64_t ks_u64(const char* n) { return next(n); }
uint32_t ks_u32(const char* n) { return (uint32_t)next(n); }
uint16_t ks_u16(const char* n) { return (uint16_t)next(n); }
uint8_t ks_u8(const char* n) { return (uint8_t)next(n); }
bool ks_bool(const char* n) { return next(n) & 1; }
uint64_t ks_range(const char* n, uint64_t, uint64_t) { return next(n); }
uint64_t ks_choose(const char* n, uint64_t) { return next(n); }
void ks_assume(int c) { if (!c) { fprintf(stderr, "KS_REPLAY_DIVERGED assumption false\n"); _exit(78); } }
void ks_check(int c, const char* m) { if (!c) { fprintf(stderr, "KS_CHECK_FAILED %s\n", m); _exit(77); } }
void ks_fail(const char* m) { ks_check(0, m); abort(); }
uint64_t ks_concretize(uint64_t v) { return v; }
int ks_split(uint64_t c) { return c != 0; }
void ks_reach(const char*) {}
void ks_malloc_may_fail(int t) { g_budget = t; }
void ks_malloc_cap(uint64_t b) { g_cap = b; }
void ks_fuel(uint64_t) {}
uint64_t ks_heap_live() { std::lock_guard<std::recursive_mutex> l(*g_mx); return g_blocks->size(); }
uint64_t ks_block_size(const void* p) { std::lock_guard<std::recursive_mutex> l(*g_mx); auto i = g_blocks->find((void*)p); return i == g_blocks->end() ? 0 : i->second; }
int ks_addr_ok(const void* p, uint64_t n) { for (auto& b : *g_blocks) if (p >= b.first && (const char*)p < (const char*)b.first + b.second) return (uint64_t)((const char*)b.first + b.second - (const char*)p) >= n; return 1; }
void ks_poison(void* p, uint64_t n) { memset(p, 0xC7, n); }
void ks_symbolic_memory(int) {}
void ks_note(const char*, uint64_t) {}
int ks_tier() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
static std::vector<std::thread>* g_th;
int ks_spawn(void* (*fn)(void*), void* a) { Off off; g_th->emplace_back([fn, a] { g_on = true; fn(a); g_on = false; }); return (int)g_th->size(); }
void ks_join(int t) { Off off; (*g_th)[t - 1].join(); }

void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
}
static bool refuse(uint64_t n) { if (n > g_cap) return true; if (g_budget > 0) { if (next("malloc_fail", false)) { g_budget--; return true; } } return false; }
static void* note(void* p, size_t n) { if (p && g_on) { std::lock_guard<std::recursive_mutex> l(*g_mx); g_on = false; (*g_blocks)[p] = n; g_on = true; } return p; }
static void drop(void* p) { if (p && g_on) { std::lock_guard<std::recursive_mutex> l(*g_mx); g_on = false; g_blocks->erase(p); g_on = true; } }
extern "C" {
void* __wrap_malloc(size_t n) { if (!g_on) return __real_malloc(n); if (refuse(n)) return nullptr; void* p = __real_malloc(n); if (p && n) memset(p, 0xA9, n); return note(p, n); }
void __wrap_free(void* p) { drop(p); __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (!g_on) return __real_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) n = ~size_t(0); if (refuse(n)) return nullptr; return note(__real_calloc(a, b), n); }
int __wrap_posix_memalign(void** r, size_t a, size_t n) { if (!g_on) return __real_posix_memalign(r, a, n); if (a < sizeof(void*) || (a & (a - 1))) return EINVAL; if (refuse(n)) return ENOMEM; int rc = __real_posix_memalign(r, a, n); if (!rc) note(*r, n); return rc; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (!g_on) return __real_aligned_alloc(a, n); if (refuse(n)) return nullptr; return note(__real_aligned_alloc(a, n), n); }
}
#ifndef KS_KEEP_NEW
static void* opnew(size_t n) { void* p = __real_malloc(n); if (!p) abort(); if (g_on) { if (n) memset(p, 0xA9, n); } return note(p, n); }
void* operator new(size_t n) { return opnew(n); }
void* operator new[](size_t n) { return opnew(n); }
void operator delete(void* p) noexcept { drop(p); __real_free(p); }
void operator delete(void* p, size_t) noexcept { drop(p); __real_free(p); }
void operator delete[](void* p) noexcept { drop(p); __real_free(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); __real_free(p); }
#endif
struct Init { Init() { g_in = new std::vector<In>(); g_mx = new std::recursive_mutex(); g_blocks = new std::map<void*, size_t>(); g_names = new std::map<std::string, int>(); g_th = new std::vector<std::thread>(); g_th->reserve(8); } };
static Init g_init __attribute__((init_priority(101)));
int main(int argc, char** argv) {
  g_in->reserve(1024);
  if (argc < 3) return 79;
  auto entry = (void (*)())dlsym(RTLD_DEFAULT, argv[2]); if (!entry) { fprintf(stderr, "no entry %s\n", argv[2]); return 79; }
  {
    FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 79; }
    char ln[512];
    while (fgets(ln, sizeof ln, f)) { std::string l = ln; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (l.empty() || l[0] == '#' || l.rfind("sched ", 0) == 0) continue; size_t sp = l.rfind(' '); g_in->push_back({l.substr(0, sp), strtoull(l.c_str() + sp + 1, nullptr, 10)}); }
    fclose(f);
  }
  alarm(60);
  g_on = true;
  entry();
  g_on = false;
  fprintf(stderr, "KS_REPLAY_PASSED\n");
  return 0;
}
