// names the engine models itself
enum B {
  B_UNKNOWN = 0, B_NOP, B_RET0, B_MALLOC, B_FREE, B_CALLOC, B_POSIX_MEMALIGN, B_ALIGNED_ALLOC, B_MM_MALLOC, B_MM_FREE, B_NEW, B_NEW_ALIGN, B_NEWARR, B_NEW_NOTHROW, B_NEW_ALIGN_NT, B_NEWARR_NT, B_NEWARR_ALIGN, B_NEWARR_ALIGN_NT, B_DELETE, B_DELARR,
  B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_MEMCHR, B_STRLEN, B_ABORT, B_RAISE, B_TERMINATE, B_THROW, B_GUARD_ACQ, B_GUARD_REL, B_EXIT,
  B_MLOCK, B_MUNLOCK, B_MTRYLOCK, B_MINIT, B_RDLOCK, B_WRLOCK, B_RWUNLOCK, B_ONCE, B_SELF, B_YIELD, B_ACTIVE,
  B_KS_U, B_KS_RANGE, B_KS_CHOOSE, B_KS_ASSUME, B_KS_CHECK, B_KS_CONC, B_KS_REACH, B_KS_FAILS, B_KS_CAP, B_KS_LIVE, B_KS_BLOCK, B_KS_SPAWN, B_KS_JOIN, B_KS_ADDR_OK, B_KS_NOTE, B_KS_TIER, B_KS_FAIL, B_KS_POISON, B_KS_EXPECT_DEAD, B_KS_SPLIT, B_KS_ISCONST, B_KS_SYMMEM, B_KS_FUEL
};
static const std::map<std::string, int>& builtinTab() {
  static std::map<std::string, int> t = {
    {"malloc", B_MALLOC}, {"free", B_FREE}, {"calloc", B_CALLOC}, {"posix_memalign", B_POSIX_MEMALIGN}, {"aligned_alloc", B_ALIGNED_ALLOC}, {"memalign", B_ALIGNED_ALLOC}, {"_mm_malloc", B_MM_MALLOC}, {"_mm_free", B_MM_FREE},
    {"_aligned_malloc", B_MM_MALLOC}, {"_aligned_free", B_MM_FREE},
    {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmSt11align_val_t", B_NEW_ALIGN}, {"_ZnwmRKSt9nothrow_t", B_NEW_NOTHROW}, {"_ZnwmSt11align_val_tRKSt9nothrow_t", B_NEW_ALIGN_NT}, {"_ZnamRKSt9nothrow_t", B_NEWARR_NT}, {"_ZnamSt11align_val_t", B_NEWARR_ALIGN}, {"_ZnamSt11align_val_tRKSt9nothrow_t", B_NEWARR_ALIGN_NT}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdlPvSt11align_val_tRKSt9nothrow_t", B_DELETE}, {"_ZdaPvRKSt9nothrow_t", B_DELARR}, {"_ZdaPvSt11align_val_t", B_DELARR}, {"_ZdaPvmSt11align_val_t", B_DELARR}, {"_ZdaPvSt11align_val_tRKSt9nothrow_t", B_DELARR},
    {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"memchr", B_MEMCHR}, {"strlen", B_STRLEN},
    {"abort", B_ABORT}, {"raise", B_RAISE}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE}, {"__assert_fail", B_ABORT}, {"__cxa_pure_virtual", B_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT},
    {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_THROW}, {"_Unwind_Resume", B_THROW}, {"exit", B_EXIT},
    {"_ZSt20__throw_length_errorPKc", B_THROW}, {"_ZSt17__throw_bad_allocv", B_THROW}, {"_ZSt28__throw_bad_array_new_lengthv", B_THROW}, {"_ZSt20__throw_system_errori", B_THROW}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_THROW}, {"_ZSt20__throw_out_of_rangePKc", B_THROW}, {"_ZSt19__throw_logic_errorPKc", B_THROW},
    {"__cxa_allocate_exception", B_THROW}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_NOP}, {"__cxa_atexit", B_RET0}, {"atexit", B_RET0}, {"__cxa_thread_atexit", B_RET0},
    {"pthread_mutex_lock", B_MLOCK}, {"pthread_mutex_unlock", B_MUNLOCK}, {"pthread_mutex_trylock", B_MTRYLOCK}, {"pthread_mutex_init", B_RET0}, {"pthread_mutex_destroy", B_RET0},
    {"pthread_rwlock_rdlock", B_RDLOCK}, {"pthread_rwlock_wrlock", B_WRLOCK}, {"pthread_rwlock_unlock", B_RWUNLOCK}, {"pthread_rwlock_init", B_RET0}, {"pthread_rwlock_destroy", B_RET0},
    {"pthread_mutexattr_init", B_RET0}, {"pthread_mutexattr_settype", B_RET0}, {"pthread_mutexattr_destroy", B_RET0},
    {"pthread_self", B_SELF}, {"sched_yield", B_YIELD}, {"__gthread_active_p", B_ACTIVE}, {"_ZL18__gthread_active_pv", B_ACTIVE}, {"printf", B_RET0}, {"puts", B_RET0}, {"fprintf", B_RET0}, {"fflush", B_RET0},
    {"ks_u64", B_KS_U}, {"ks_u32", B_KS_U}, {"ks_u16", B_KS_U}, {"ks_u8", B_KS_U}, {"ks_bool", B_KS_U}, {"ks_range", B_KS_RANGE}, {"ks_choose", B_KS_CHOOSE}, {"ks_assume", B_KS_ASSUME}, {"ks_check", B_KS_CHECK}, {"ks_concretize", B_KS_CONC}, {"ks_reach", B_KS_REACH},
    {"ks_malloc_may_fail", B_KS_FAILS}, {"ks_malloc_cap", B_KS_CAP}, {"ks_heap_live", B_KS_LIVE}, {"ks_block_size", B_KS_BLOCK}, {"ks_spawn", B_KS_SPAWN}, {"ks_join", B_KS_JOIN}, {"ks_addr_ok", B_KS_ADDR_OK}, {"ks_note", B_KS_NOTE}, {"ks_tier", B_KS_TIER}, {"ks_fail", B_KS_FAIL}, {"ks_poison", B_KS_POISON}, {"ks_split", B_KS_SPLIT}, {"ks_is_const", B_KS_ISCONST}, {"ks_symbolic_memory", B_KS_SYMMEM}, {"ks_fuel", B_KS_FUEL},
  };
  return t;
}
static int builtinId(Function* F) {
  if (F->isIntrinsic()) return 1000 + (int)F->getIntrinsicID();
  auto it = builtinTab().find(F->getName().str());
  return it == builtinTab().end() ? -1 : it->second;
}
static bool builtinSync(int b) { return b == B_MLOCK || b == B_MTRYLOCK || b == B_RDLOCK || b == B_WRLOCK || b == B_KS_JOIN || b == B_MUNLOCK || b == B_RWUNLOCK || b == B_YIELD; }
