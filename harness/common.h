// Shared by all harnesses. A harness is compiled once per property (-DKS_PROP="A01"); CHECK(prop, ...) is
// active only for that property, so one history harness can serve several properties.
#pragma once
#include "ksym.h"
#include <cstring>
#include <new>
#include <utility>
#ifndef KS_PROP
#define KS_PROP "ALL"
#endif
constexpr bool ks_streq(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
constexpr bool ks_on(const char* p) { return ks_streq(KS_PROP, "ALL") || ks_streq(KS_PROP, p); }
#define ON(prop) (ks_on(prop))
#define CHECK(prop, c, msg) do { if constexpr (ks_on(prop)) ks_check((c) ? 1 : 0, prop ": " msg); } while (0)
// an object whose destructor never runs (as the executor and the native replay see the same thing)
template<class T> struct Raw { alignas(T) unsigned char b[sizeof(T)]; T* p() { return reinterpret_cast<T*>(b); } };
static inline uintptr_t addr(const void* p) { return reinterpret_cast<uintptr_t>(p); }
static inline size_t pad16(size_t n) { return (n + 15) & ~size_t(15); }
