// ---------------------------------------------------------------- control
static void jump(State& s, Frame& f, const BasicBlock* to) {
  int from = f.bb, tb = f.f->bidx[to];
  auto& kb = f.f->bb[tb];
  std::vector<std::pair<int, V>> set; int pc = 0;
  for (auto& ki : kb.in) {
    if (ki.op != Instruction::PHI) break;
    pc++;
    auto* P = cast<PHINode>(ki.I); int idx = P->getBasicBlockIndex(f.f->bb[from].B);
    if (idx < 0) die("phi");
    for (unsigned i = 0; i < ki.dn; i++) set.push_back({ki.dst + (int)i, get(s, f, ki.ops[idx], i)});
  }
  for (auto& p : set) f.regs[p.first] = p.second;
  f.bb = tb; f.pc = pc;
}
static void pushCall(State& s, Thread& t, KFunc* k, const std::vector<std::vector<V>>& args) {
  if (t.st.size() > 400) fail(s, "recursion", "call depth exceeds 400");
  Frame nf; nf.f = k; nf.regs.resize(k->nregs); nf.mark = t.stk.size();
  size_t na = k->argReg.size();
  std::vector<std::vector<V>> a2 = args;
  for (size_t i = 0; i < na; i++) if (k->byval[i]) {
    u64 sz = DL->getTypeAllocSize(k->byval[i]); u64 al = std::max<u64>(8, DL->getABITypeAlign(k->byval[i]).value());
    u64 off; ObjRef* src = resolve(s, a2[i][0], sz, false, off); // address is concrete here (frames pass stack addresses)
    race(s, src, off, sz, false, false);
    std::vector<uint8_t> d(src->p->d.begin() + off, src->p->d.begin() + off + sz), st(src->p->st.begin() + off, src->p->st.begin() + off + sz); std::vector<E> sy; if (!src->p->sym.empty()) sy.assign(src->p->sym.begin() + off, src->p->sym.begin() + off + sz);
    u64 addr = stackAlloc(s, t, sz, al, "byval"); Obj* o = t.stk.back().p; o->d = d; o->st = st; o->sym = sy;
    a2[i][0] = V(addr);
  }
  for (size_t i = 0; i < na; i++) for (unsigned j = 0; j < k->argN[i]; j++) nf.regs[k->argReg[i] + j] = a2[i][j];
  g_execd.insert(k);
  t.st.push_back(std::move(nf));
}
static void advance(State& s, Frame& f, KInst& ki) {
  if (auto* inv = dyn_cast<InvokeInst>(ki.I)) jump(s, f, inv->getNormalDest()); else f.pc++;
}
static void finish(State& s, const V& r) { // finish the current call-like instruction of the current thread with result r
  Frame& f = s.th[s.cur].st.back(); KInst& ki = f.f->bb[f.bb].in[f.pc];
  if (ki.dst >= 0 && ki.dn) f.regs[ki.dst] = r.e ? r : V(r.c & mask(ki.w));
  advance(s, f, ki);
}

// ---------------------------------------------------------------- threads
static void joinVC(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
static bool runnable(State& s, int t) {
  Thread& T = s.th[t];
  if (T.status == T_RUN) return true;
  if (T.status == T_BLOCK_JOIN) return s.th[T.waitOn].status == T_DONE;
  if (T.status == T_BLOCK_MUTEX) { auto it = s.mtx.find(T.waitOn); if (it == s.mtx.end()) return true; return it->second.owner < 0 && it->second.readers == 0; }
  return false;
}
static void switchTo(State& s, int t) { s.cur = t; s.th[t].status = T_RUN; s.schedDone = true; s.sched.push_back(t); }
// current thread can not go on: pick another (fork over all candidates)
static void reschedule(State& s) {
  std::vector<int> c; for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && runnable(s, t)) c.push_back(t);
  if (c.empty()) fail(s, "deadlock", "all threads are blocked");
  if (!optReplay.empty()) { size_t k = s.sched.size(); if (k < g_replaySched.size()) { switchTo(s, g_replaySched[k]); return; } }
  for (size_t i = 1; i < c.size(); i++) { State* o = cloneS(s); switchTo(*o, c[i]); g_work.push_back(o); }
  switchTo(s, c[0]);
}
static void schedPoint(State& s) {
  if (s.schedDone || !s.multi) return;
  std::vector<int> c; for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && runnable(s, t)) c.push_back(t);
  if (c.empty()) return;
  if (!optReplay.empty()) {
    size_t k = s.sched.size(); int t = k < g_replaySched.size() ? g_replaySched[k] : s.cur; s.sched.push_back(t); s.schedDone = true; s.cur = t; s.th[t].status = T_RUN; return;
  }
  if (s.preempt < optPreempt) for (int t : c) { State* o = cloneS(s); o->preempt++; switchTo(*o, t); g_work.push_back(o); }
  s.schedDone = true; s.sched.push_back(s.cur);
}

// ---------------------------------------------------------------- heap builtins
static bool replayChoice(State& s, const std::string& name, u64& v) {
  if (optReplay.empty()) return false;
  if (s.replayPos >= g_replayIn.size()) { v = 0; return true; }
  auto& p = g_replayIn[s.replayPos++];
  if (p.first != name) { fprintf(stderr, "replay diverged: expected input %s, got %s\n", name.c_str(), p.first.c_str()); _exit(79); }
  v = p.second; return true;
}
static void addChoice(State& s, const std::string& name, u64 v) { Input in; in.name = name; in.w = 64; in.e = nullptr; in.c = v; in.choice = true; s.inputs.push_back(in); }
static void zeroObj(Obj* o) { std::fill(o->st.begin(), o->st.end(), 1); }

// returns true if finished (result set)
static bool doMalloc(State& s, V size, u64 align, AK ak, bool fallible, bool zero, V* outAddr) {
  size = simpV(s, size);
  u64 cap; E ss = nullptr;
  if (size.e) {
    State* o = nullptr; bool big = decide(s, mkBin(E_ULT, mkConst(s.mallocCap, 64), size.e), &o); if (o) g_work.push_back(o);
    if (big) { if (!fallible) fail(s, "exception", "operator new with an unsatisfiable size"); *outAddr = V(0); return true; }
    size = simpV(s, size);
  }
  if (size.e) { cap = std::min<u64>(s.mallocCap, size.e->hi); ss = size.e; }
  else { if (size.c > s.mallocCap) { if (!fallible) fail(s, "exception", "operator new with an unsatisfiable size"); *outAddr = V(0); return true; } cap = size.c; }
  if (fallible && s.failBudget > 0) {
    u64 rv = 0;
    if (replayChoice(s, "malloc_fail", rv)) { addChoice(s, "malloc_fail", rv); if (rv) { s.failBudget--; *outAddr = V(0); return true; } }
    else {
      State* o = cloneS(s); o->failBudget--; addChoice(*o, "malloc_fail", 1); *outAddr = V(0); finish(*o, V(0)); g_work.push_back(o);
      addChoice(s, "malloc_fail", 0);
    }
  }
  u64 a = heapAlloc(s, cap, ss, align, ak);
  if (zero || s.symmem) zeroObj(s.heap.back().p);
  *outAddr = V(a); return true;
}
static void doFree(State& s, V p, AK ak) {
  u64 a = conc(s, p); if (!a) return;
  ObjRef* r = findObj(s, a);
  if (!r || r->p->kind != K_HEAP) fail(s, "bad-free", "freeing memory that did not come from the heap: " + objDesc(s, a));
  if (!r->p->alive) fail(s, "double-free", "double free of " + r->p->name);
  if (r->p->base != a) fail(s, "bad-free", "freeing an address inside a block: " + objDesc(s, a));
  if (r->p->ak != ak) fail(s, "bad-free", "memory freed with a function that does not match its allocation: " + r->p->name);
  race(s, r, 0, r->p->cap, true, false);
  r = findObj(s, a); Obj* o = writable(*r); o->alive = false; s.liveHeap--;
  o->sym.clear(); o->sym.shrink_to_fit();
}

static std::string cstr(State& s, u64 a) {
  std::string r; ObjRef* o = findObj(s, a); if (!o) return "?";
  for (u64 i = a - o->p->base; i < o->p->cap && o->p->d[i]; i++) r += (char)o->p->d[i];
  return r;
}

static void copyMem(State& s, V dst, V src, V len, bool move) {
  u64 n = conc(s, len); if (!n) return;
  if (n > (1u << 20)) fail(s, "oob-write", "memory copy of " + std::to_string(n) + " bytes");
  u64 od, os;
  resolve(s, dst, n, true, od); ObjRef* rs = resolve(s, src, n, false, os); race(s, rs, os, n, false, false);
  ObjRef* rd = resolve(s, dst, n, true, od); race(s, rd, od, n, true, false); rd = resolve(s, dst, n, true, od); rs = resolve(s, src, n, false, os);
  if (!move && rs->p->base == rd->p->base && od != os && (od < os + n && os < od + n)) fail(s, "memcpy-overlap", "memcpy between overlapping ranges");
  std::vector<uint8_t> d(rs->p->d.begin() + os, rs->p->d.begin() + os + n), st(rs->p->st.begin() + os, rs->p->st.begin() + os + n);
  std::vector<E> sy; if (!rs->p->sym.empty()) sy.assign(rs->p->sym.begin() + os, rs->p->sym.begin() + os + n);
  Obj* o = writable(*rd);
  memcpy(&o->d[od], d.data(), n); memcpy(&o->st[od], st.data(), n);
  if (!sy.empty()) { if (o->sym.empty()) o->sym.assign(o->cap, nullptr); std::copy(sy.begin(), sy.end(), o->sym.begin() + od); }
}
static void setMem(State& s, V dst, V val, V len) {
  len = simpV(s, len);
  if (s.symmem && !s.multi && (len.e ? !len.e->uninit : len.c > 0)) { // symbolic destination or length: every byte of the object gets a condition
    V d0 = simpV(s, dst); if (len.e || d0.e) {
      u64 at = d0.e ? evalExpr(d0.e, s.model) : d0.c; ObjRef* r = findObj(s, at);
      if (r && r->p->alive && r->p->cap <= 1024 && !r->p->ro && !(d0.e && d0.e->uninit)) {
        u64 base = r->p->base, cap = r->p->cap; E a = toE(d0, 64), n = toE(len, 64), off = mkBin(E_SUB, a, mkConst(base, 64));
        if (d0.e) { State* ot = nullptr; decide(s, mkNot(mkBin(E_ULT, mkConst(cap, 64), off)), &ot); if (ot) g_work.push_back(ot); }
        r = findObj(s, base); E end = r->p->symsize ? r->p->symsize : mkConst(cap, 64);
        require(s, mkNot(mkBin(E_ULT, mkBin(E_SUB, end, off), n)), "oob-write", "memset beyond the end of " + r->p->name);
        r = findObj(s, base); Obj* o = writable(*r); off = simp(s, off); n = simp(s, n); val = simpV(s, val); E b = val.e ? mkExtract(val.e, 0, 8) : mkConst(val.c & 255, 8);
        for (u64 k = 0; k < cap; k++) { E c = mkBin(E_ULT, mkBin(E_SUB, mkConst(k, 64), off), n); if (isC(c) && !c->val) continue; V old = isC(c) ? V(0) : loadBytes(s, o, k, 8, r); storeBytes(o, k, 8, V(mkIte(c, b, toE(old, 8)))); }
        return;
      }
    }
  }
  u64 n = conc(s, len); if (!n) return;
  if (n > (1u << 20)) fail(s, "oob-write", "memset of " + std::to_string(n) + " bytes");
  u64 od; ObjRef* rd = resolve(s, dst, n, true, od); race(s, rd, od, n, true, false); rd = resolve(s, dst, n, true, od);
  Obj* o = writable(*rd); val = simpV(s, val);
  if (val.e) { E b = mkExtract(val.e, 0, 8); if (o->sym.empty()) o->sym.assign(o->cap, nullptr); for (u64 i = 0; i < n; i++) { o->sym[od + i] = b; o->st[od + i] = 2; } }
  else { memset(&o->d[od], (int)val.c, n); memset(&o->st[od], 1, n); }
}

// ---------------------------------------------------------------- inputs
static std::string uniq(State& s, const std::string& n) { int k = s.names[n]++; return k ? n + "#" + std::to_string(k) : n; }
static V newInput(State& s, const std::string& nm, unsigned w) {
  std::string name = uniq(s, nm); u64 rv;
  Input in; in.name = name; in.w = w; in.choice = false; in.c = 0; in.e = nullptr;
  V r;
  if (replayChoice(s, name, rv)) { in.c = rv & mask(w); r = V(in.c); }
  else { in.e = mkVar(name, w); r = V(in.e); }
  s.inputs.push_back(in); return r;
}

static void doBuiltin(State& s, Frame& f, KInst& ki, int b, Function* callee) {
  auto A = [&](unsigned i) { return simpV(s, get(s, f, ki.ops[i])); };
  Thread& T = s.th[s.cur];
  switch (b) {
    case B_NOP: case B_RET0: case B_ONCE: finish(s, V(0)); return;
    case B_ACTIVE: finish(s, V(1)); return;
    case B_MALLOC: { V a; doMalloc(s, A(0), 16, A_MALLOC, true, false, &a); finish(s, a); return; }
    case B_CALLOC: { V x = A(0), y = A(1); V sz; if (!x.e && !y.e) { if (__builtin_mul_overflow(x.c, y.c, &sz.c)) sz.c = ~0ull; } else sz = V(mkIte(mkBin(E_UMULO, toE(x, 64), toE(y, 64)), mkConst(~0ull, 64), mkBin(E_MUL, toE(x, 64), toE(y, 64)))); V a; doMalloc(s, sz, 16, A_MALLOC, true, true, &a); finish(s, a); return; }
    case B_ALIGNED_ALLOC: { u64 al = conc(s, A(0)); if (!al || (al & (al - 1))) { finish(s, V(0)); return; } V a; doMalloc(s, A(1), std::max<u64>(16, al), A_MALLOC, true, false, &a); finish(s, a); return; }
    case B_MM_MALLOC: { u64 al = conc(s, A(1)); if (!al || (al & (al - 1))) { finish(s, V(0)); return; } V a; doMalloc(s, A(0), al, A_MM, true, false, &a); finish(s, a); return; }
    case B_MM_FREE: doFree(s, A(0), A_MM); finish(s, V(0)); return;
    case B_POSIX_MEMALIGN: {
      u64 al = conc(s, A(1)); V sz = A(2); u64 off;
      if (al < 8 || (al & (al - 1))) { finish(s, V(22)); return; }
      // the failing branch must leave *res untouched and return ENOMEM
      sz = simpV(s, sz);
      u64 pa = conc(s, A(0)); resolve(s, V(pa), 8, true, off);
      if (sz.e) { State* o = nullptr; bool big = decide(s, mkBin(E_ULT, mkConst(s.mallocCap, 64), sz.e), &o); if (o) g_work.push_back(o); if (big) { finish(s, V(12)); return; } sz = simpV(s, sz); }
      else if (sz.c > s.mallocCap) { finish(s, V(12)); return; }
      if (s.failBudget > 0) {
        u64 rv = 0;
        if (replayChoice(s, "malloc_fail", rv)) { addChoice(s, "malloc_fail", rv); if (rv) { s.failBudget--; finish(s, V(12)); return; } }
        else { State* o = cloneS(s); o->failBudget--; addChoice(*o, "malloc_fail", 1); finish(*o, V(12)); g_work.push_back(o); addChoice(s, "malloc_fail", 0); }
      }
      u64 cap = sz.e ? std::min<u64>(s.mallocCap, sz.e->hi) : sz.c;
      u64 a = heapAlloc(s, cap, sz.e, al, A_MALLOC);
      ObjRef* r = resolve(s, V(pa), 8, true, off); storeBytes(writable(*r), off, 64, V(a));
      finish(s, V(0)); return; }
    case B_FREE: doFree(s, A(0), A_MALLOC); finish(s, V(0)); return;
    case B_NEW: { V a; doMalloc(s, A(0), 16, A_NEW, false, false, &a); finish(s, a); return; }
    case B_NEW_ALIGN: { u64 al = conc(s, A(1)); V a; doMalloc(s, A(0), std::max<u64>(al, 16), A_NEW, false, false, &a); finish(s, a); return; }
    case B_NEW_NOTHROW: { V a; doMalloc(s, A(0), 16, A_NEW, true, false, &a); finish(s, a); return; }
    case B_NEW_ALIGN_NT: { u64 al = conc(s, A(1)); V a; doMalloc(s, A(0), std::max<u64>(al, 16), A_NEW, true, false, &a); finish(s, a); return; }
    case B_NEWARR_NT: { V a; doMalloc(s, A(0), 16, A_NEWARR, true, false, &a); finish(s, a); return; }
    case B_NEWARR_ALIGN: { u64 al = conc(s, A(1)); V a; doMalloc(s, A(0), std::max<u64>(al, 16), A_NEWARR, false, false, &a); finish(s, a); return; }
    case B_NEWARR_ALIGN_NT: { u64 al = conc(s, A(1)); V a; doMalloc(s, A(0), std::max<u64>(al, 16), A_NEWARR, true, false, &a); finish(s, a); return; }
    case B_NEWARR: { V a; doMalloc(s, A(0), 16, A_NEWARR, false, false, &a); finish(s, a); return; }
    case B_DELETE: doFree(s, A(0), A_NEW); finish(s, V(0)); return;
    case B_DELARR: doFree(s, A(0), A_NEWARR); finish(s, V(0)); return;
    case B_MEMCPY: { V d = A(0); copyMem(s, d, A(1), A(2), false); finish(s, d); return; }
    case B_MEMMOVE: { V d = A(0); copyMem(s, d, A(1), A(2), true); finish(s, d); return; }
    case B_MEMSET: { V d = A(0); setMem(s, d, A(1), A(2)); finish(s, d); return; }
    case B_MEMCMP: {
      u64 n = conc(s, A(2)); if (!n) { finish(s, V(0)); return; }
      u64 oa, ob; resolve(s, A(0), n, false, oa); ObjRef* rb = resolve(s, A(1), n, false, ob); race(s, rb, ob, n, false, false); ObjRef* ra = resolve(s, A(0), n, false, oa); race(s, ra, oa, n, false, false);
      E res = mkConst(0, 32);
      for (u64 i = n; i-- > 0;) {
        ra = resolve(s, A(0), n, false, oa); V x = loadBytes(s, ra->p, oa + i, 8, ra);
        rb = resolve(s, A(1), n, false, ob); V y = loadBytes(s, rb->p, ob + i, 8, rb);
        E ex = toE(x, 8), ey = toE(y, 8);
        res = mkIte(mkBin(E_EQ, ex, ey), res, mkIte(mkBin(E_ULT, ex, ey), mkConst(-1, 32), mkConst(1, 32)));
      }
      finish(s, V(res)); return; }
    case B_MEMCHR: {
      u64 n = conc(s, A(2)); if (!n) { finish(s, V(0)); return; }
      u64 base = conc(s, A(0)), off; E c = toE(A(1), 32), c8 = mkExtract(c, 0, 8), res = mkConst(0, 64);
      ObjRef* r = resolve(s, V(base), n, false, off); race(s, r, off, n, false, false);
      for (u64 i = n; i-- > 0;) { r = resolve(s, V(base), n, false, off); V x = loadBytes(s, r->p, off + i, 8, r); res = mkIte(mkBin(E_EQ, toE(x, 8), c8), mkConst(base + i, 64), res); }
      finish(s, V(res)); return; }
    case B_STRLEN: { u64 a = conc(s, A(0)); u64 off; u64 n = 0; while (true) { ObjRef* r = resolve(s, V(a + n), 1, false, off); V c = loadBytes(s, r->p, off, 8, r); if (conc(s, c, 8) == 0) break; n++; } finish(s, V(n)); return; }
    case B_ABORT: fail(s, "abort", "abort() called");
    case B_RAISE: fail(s, "assert", "a library assertion failed (breakpoint raised)");
    case B_TERMINATE: fail(s, "abort", "std::terminate called");
    case B_THROW: fail(s, "exception", "exception thrown: " + callee->getName().str());
    case B_EXIT: throw Terminate{};
    case B_GUARD_ACQ: { u64 off; ObjRef* r = resolve(s, A(0), 1, false, off); V v = loadBytes(s, r->p, off, 8, r); if (s.multi) joinVC(T.vc, s.atomVC[r->p->base]); finish(s, V(conc(s, v, 8) == 0)); return; }
    case B_GUARD_REL: { u64 off; ObjRef* r = resolve(s, A(0), 1, true, off); storeBytes(writable(*r), off, 8, V(1)); if (s.multi) { s.atomVC[r->p->base] = T.vc; T.vc[s.cur]++; } finish(s, V(0)); return; }
    case B_SELF: finish(s, V(0x7000 + s.cur)); return;
    case B_YIELD: finish(s, V(0)); return;
    case B_MLOCK: case B_MTRYLOCK: case B_WRLOCK: case B_RDLOCK: {
      u64 a = conc(s, A(0)); u64 off; resolve(s, V(a), 8, true, off);
      MutexS& m = s.mtx[a];
      bool rd = b == B_RDLOCK;
      bool free_ = rd ? m.owner < 0 : (m.owner < 0 && m.readers == 0);
      if (!free_) {
        if (b == B_MTRYLOCK) { finish(s, V(16)); return; }
        if (m.owner == s.cur || m.rd[s.cur]) {
          // std::recursive_mutex sets the kind field; a plain mutex locked twice by its owner deadlocks
          ObjRef* r = findObj(s, a); u64 o2 = a - r->p->base; V kind = (o2 + 20 <= r->p->cap) ? loadBytes(s, r->p, o2 + 16, 32, r) : V(0);
          if (b == B_MLOCK && !kind.e && (kind.c & 3) == 1) { m.depth++; finish(s, V(0)); return; }
          fail(s, "deadlock", "thread " + std::to_string(s.cur) + " locks a mutex it already holds");
        }
        T.status = T_BLOCK_MUTEX; T.waitOn = a; reschedule(s); return; // retried when rescheduled
      }
      if (rd) { m.readers++; m.rd[s.cur]++; } else { m.owner = s.cur; m.depth = 1; }
      joinVC(T.vc, m.vc); finish(s, V(0)); return; }
    case B_MUNLOCK: case B_RWUNLOCK: {
      u64 a = conc(s, A(0)); u64 off; resolve(s, V(a), 8, true, off); MutexS& m = s.mtx[a];
      if (m.owner == s.cur) { if (--m.depth == 0) m.owner = -1; }
      else if (m.rd[s.cur]) { m.rd[s.cur]--; m.readers--; }
      else fail(s, "bad-unlock", "unlock of a mutex the thread does not hold");
      joinVC(m.vc, T.vc); T.vc[s.cur]++; finish(s, V(0)); return; }
    case B_KS_U: {
      StringRef n = callee->getName(); unsigned w = n == "ks_u64" ? 64 : n == "ks_u32" ? 32 : n == "ks_u16" ? 16 : n == "ks_u8" ? 8 : 1;
      V v = newInput(s, cstr(s, A(0).c), w); V r = v.e ? V(mkZext(v.e, ki.w)) : v; finish(s, r); return; }
    case B_KS_RANGE: {
      u64 lo = conc(s, A(1)), hi = conc(s, A(2)); std::string nm = cstr(s, A(0).c);
      if (lo > hi) throw Terminate{};
      if (lo == hi) { addChoice(s, uniq(s, nm), lo); if (!optReplay.empty()) s.replayPos++; finish(s, V(lo)); return; }
      u64 span = hi - lo; unsigned w = 64 - __builtin_clzll(span);
      std::string name = uniq(s, nm); u64 rv; V r;
      Input in; in.name = name; in.w = 64; in.choice = false; in.c = 0; in.e = nullptr;
      if (replayChoice(s, name, rv)) { in.c = rv; s.inputs.push_back(in); finish(s, V(rv)); return; }
      E v = mkVar(name + "[" + std::to_string(lo) + ".." + std::to_string(hi) + "]", w);
      in.e = w == 64 ? mkBin(E_ADD, v, mkConst(lo, 64)) : mkBin(E_ADD, mkZext(v, 64), mkConst(lo, 64));
      s.inputs.push_back(in);
      if (span != mask(w)) { E c = mkNot(mkBin(E_ULT, mkConst(span, w), v)); Assign as; if (!may(s, c, as)) throw Terminate{}; applyAsg(s.model, as); addCons(s, c); }
      finish(s, V(in.e)); return; }
    case B_KS_CHOOSE: {
      u64 n = conc(s, A(1)); std::string name = uniq(s, cstr(s, A(0).c)); u64 rv;
      if (replayChoice(s, name, rv)) { addChoice(s, name, rv); finish(s, V(rv)); return; }
      for (u64 i = n; i-- > 1;) { State* o = cloneS(s); addChoice(*o, name, i); finish(*o, V(i)); g_work.push_back(o); }
      addChoice(s, name, 0); finish(s, V(0)); return; }
    case B_KS_ASSUME: { V c = A(0); assume(s, mkNot(mkBin(E_EQ, toE(c, ki.ops[0].reg >= 0 ? 32 : 32), mkConst(0, 32)))); finish(s, V(0)); return; }
    case B_KS_CHECK: { V c = A(0); g_checks++; std::string m = cstr(s, A(1).c); require(s, mkNot(mkBin(E_EQ, toE(c, 32), mkConst(0, 32))), "check", m); finish(s, V(0)); return; }
    case B_KS_FAIL: fail(s, "check", cstr(s, A(0).c));
    case B_KS_CONC: { u64 v = conc(s, A(0)); finish(s, V(v)); return; }
    case B_KS_SPLIT: { V c = A(0); if (!c.e) { finish(s, V(c.c != 0)); return; } State* o = nullptr; bool r = decide(s, mkNot(mkBin(E_EQ, c.e, mkConst(0, c.e->w))), &o); if (o) g_work.push_back(o); finish(s, V(r ? 1 : 0)); return; }
    case B_KS_ISCONST: { V c = A(0); finish(s, V(c.e ? 0 : 1)); return; }
    case B_KS_REACH: { g_reach[cstr(s, A(0).c)]++; finish(s, V(0)); return; }
    case B_KS_FAILS: s.failBudget = (int)conc(s, A(0)); finish(s, V(0)); return;
    case B_KS_SYMMEM: s.symmem = conc(s, A(0)); finish(s, V(0)); return;
    case B_KS_CAP: s.mallocCap = conc(s, A(0)); finish(s, V(0)); return;
    case B_KS_FUEL: s.fuel = conc(s, A(0)); finish(s, V(0)); return;
    case B_KS_LIVE: finish(s, V((u64)s.liveHeap)); return;
    case B_KS_TIER: finish(s, V(optTierVal)); return;
    case B_KS_NOTE: { V v = A(1); if (optTrace) fprintf(stderr, "note %s = %s\n", cstr(s, A(0).c).c_str(), v.e ? exprStr(v.e).c_str() : hex(v.c).c_str()); finish(s, V(0)); return; }
    case B_KS_BLOCK: { u64 a = conc(s, A(0)); ObjRef* r = findObj(s, a); if (!r || !r->p->alive || r->p->base != a || r->p->kind != K_HEAP) { finish(s, V(0)); return; } finish(s, r->p->symsize ? V(r->p->symsize) : V(r->p->cap)); return; }
    case B_KS_ADDR_OK: { u64 a = conc(s, A(0)); V n = A(1); ObjRef* r = findObj(s, a); if (!r || !r->p->alive) { finish(s, V(0)); return; } E end = r->p->symsize ? r->p->symsize : mkConst(r->p->cap, 64); E avail = mkBin(E_SUB, end, mkConst(a - r->p->base, 64)); finish(s, V(mkZext(mkNot(mkBin(E_ULT, avail, toE(n, 64))), 32))); return; }
    case B_KS_POISON: { // mark [p,p+n) uninitialised
      u64 a = conc(s, A(0)), n = conc(s, A(1)); if (n) { u64 off; ObjRef* r = resolve(s, V(a), n, true, off); Obj* o = writable(*r); memset(&o->st[off], 0, n); } finish(s, V(0)); return; }
    case B_KS_SPAWN: {
      if (s.th.size() >= (size_t)MAXT) die("too many threads");
      u64 fa = conc(s, A(0)); V arg = A(1); auto it = g_faddr.find(fa); if (it == g_faddr.end()) die("spawn: not a function");
      int id = s.th.size(); s.th.emplace_back(); Thread& P = s.th[s.cur]; Thread& C = s.th.back();
      if (!s.multi) { s.multi = true; P.vc[s.cur] = 1; }
      C.stackNext = SBASE + SSTEP * id + 4096; C.vc = P.vc; C.vc[id] = 1; P.vc[s.cur]++;
      pushCall(s, C, kfunc(it->second), {{arg}});
      finish(s, V((u64)id)); return; }
    case B_KS_JOIN: {
      u64 t = conc(s, A(0)); if (s.th[t].status == T_DONE) { joinVC(T.vc, s.th[t].vc); finish(s, V(0)); return; }
      T.status = T_BLOCK_JOIN; T.waitOn = t; reschedule(s); return; }
    default: break;
  }
  if (b >= 1000) {
    unsigned w = ki.w;
    auto bin = [&](Op op) { V x = A(0), y = A(1); return (x.e || y.e) ? V(mkBin(op, toE(x, w), toE(y, w))) : V(foldOp(op, w, w, x.c, y.c)); };
    auto cmpsel = [&](Op op, bool swap) { V x = A(0), y = A(1); E a = toE(x, w), c = toE(y, w); E lt = swap ? mkBin(op, c, a) : mkBin(op, a, c); return V(mkIte(lt, a, c)); };
    switch ((Intrinsic::ID)(b - 1000)) {
      case Intrinsic::lifetime_start: {
        u64 a = conc(s, A(1)); ObjRef* r = findObj(s, a); if (r && r->p->base == a) { Obj* o = writable(*r); std::fill(o->st.begin(), o->st.end(), 0); o->alive = true; } finish(s, V(0)); return; }
      case Intrinsic::lifetime_end: { u64 a = conc(s, A(1)); ObjRef* r = findObj(s, a); if (r && r->p->base == a && r->p->kind == K_STACK) { Obj* o = writable(*r); o->alive = false; } finish(s, V(0)); return; }
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::pseudoprobe: finish(s, V(0)); return;
      case Intrinsic::assume: { V c = A(0); if (c.e || !c.c) require(s, toE(c, 1), "assume", "an optimiser assumption (builtin_assume) can be false"); finish(s, V(0)); return; }
      case Intrinsic::stacksave: case Intrinsic::invariant_start: finish(s, V(0)); return;
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyMem(s, A(0), A(1), A(2), false); finish(s, V(0)); return;
      case Intrinsic::memmove: copyMem(s, A(0), A(1), A(2), true); finish(s, V(0)); return;
      case Intrinsic::memset: case Intrinsic::memset_inline: setMem(s, A(0), A(1), A(2)); finish(s, V(0)); return;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: finish(s, A(0)); return;
      case Intrinsic::umax: finish(s, cmpsel(E_ULT, true)); return;
      case Intrinsic::umin: finish(s, cmpsel(E_ULT, false)); return;
      case Intrinsic::smax: finish(s, cmpsel(E_SLT, true)); return;
      case Intrinsic::smin: finish(s, cmpsel(E_SLT, false)); return;
      case Intrinsic::abs: { E x = toE(A(0), w); finish(s, V(mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x))); return; }
      case Intrinsic::ptrmask: finish(s, bin(E_AND)); return;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        E x = toE(A(0), w), y = toE(A(1), w), r, o;
        switch ((Intrinsic::ID)(b - 1000)) {
          case Intrinsic::uadd_with_overflow: r = mkBin(E_ADD, x, y); o = mkBin(E_ULT, r, x); break;
          case Intrinsic::usub_with_overflow: r = mkBin(E_SUB, x, y); o = mkBin(E_ULT, x, y); break;
          case Intrinsic::umul_with_overflow: r = mkBin(E_MUL, x, y); o = mkBin(E_UMULO, x, y); break;
          case Intrinsic::smul_with_overflow: r = mkBin(E_MUL, x, y); o = mkBin(E_SMULO, x, y); break;
          case Intrinsic::sadd_with_overflow: { r = mkBin(E_ADD, x, y); E z = mkConst(0, w); E sxn = mkBin(E_SLT, x, z), syn = mkBin(E_SLT, y, z), srn = mkBin(E_SLT, r, z); o = mkBin(E_AND, mkBin(E_EQ, sxn, syn), mkNot(mkBin(E_EQ, sxn, srn))); break; }
          default: { r = mkBin(E_SUB, x, y); E z = mkConst(0, w); E sxn = mkBin(E_SLT, x, z), syn = mkBin(E_SLT, y, z), srn = mkBin(E_SLT, r, z); o = mkBin(E_AND, mkNot(mkBin(E_EQ, sxn, syn)), mkNot(mkBin(E_EQ, sxn, srn))); break; }
        }
        f.regs[ki.dst] = V(r); f.regs[ki.dst + 1] = V(o); advance(s, f, ki); return; }
      case Intrinsic::uadd_sat: { E x = toE(A(0), w), y = toE(A(1), w); E r = mkBin(E_ADD, x, y); finish(s, V(mkIte(mkBin(E_ULT, r, x), mkConst(~0ull, w), r))); return; }
      case Intrinsic::usub_sat: { E x = toE(A(0), w), y = toE(A(1), w); finish(s, V(mkIte(mkBin(E_ULT, x, y), mkConst(0, w), mkBin(E_SUB, x, y)))); return; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        E a = toE(A(0), w), c = toE(A(1), w), n = mkBin(E_UREM, toE(A(2), w), mkConst(w, w)); bool l = (Intrinsic::ID)(b - 1000) == Intrinsic::fshl; E inv = mkBin(E_SUB, mkConst(w, w), n);
        E r = l ? mkBin(E_OR, mkBin(E_SHL, a, n), mkBin(E_LSHR, c, inv)) : mkBin(E_OR, mkBin(E_SHL, a, inv), mkBin(E_LSHR, c, n));
        finish(s, V(mkIte(mkBin(E_EQ, n, mkConst(0, w)), l ? a : c, r))); return; }
      case Intrinsic::ctlz: { E x = toE(A(0), w); E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); finish(s, V(r)); return; }
      case Intrinsic::cttz: { E x = toE(A(0), w); E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); finish(s, V(r)); return; }
      case Intrinsic::ctpop: { E x = toE(A(0), w); E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x, i, 1), w)); finish(s, V(r)); return; }
      case Intrinsic::bswap: { E x = toE(A(0), w); E r = nullptr; for (unsigned i = 0; i < w; i += 8) { E by = mkExtract(x, i, 8); r = r ? mkConcat(r, by) : by; } finish(s, V(r)); return; }
      case Intrinsic::objectsize: finish(s, V(A(1).c ? 0 : mask(w))); return;
      case Intrinsic::is_constant: finish(s, V(0)); return;
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail(s, "trap", "trap executed");
      case Intrinsic::eh_typeid_for: finish(s, V(0)); return;
      default: die("unsupported intrinsic %s", callee->getName().str().c_str());
    }
  }
  die("unsupported external function %s called at %s", demangle(callee->getName().str()).c_str(), locStr(s).c_str());
}

static unsigned slotIdx(Type* T, ArrayRef<unsigned> idx) {
  unsigned k = 0;
  for (unsigned i : idx) {
    if (auto* S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) k += tinfo(S->getElementType(j))->s.size(); T = S->getElementType(i); }
    else if (auto* A = dyn_cast<ArrayType>(T)) { k += i * tinfo(A->getElementType())->s.size(); T = A->getElementType(); }
    else die("slotIdx");
  }
  return k;
}

static void atomicSync(State& s, u64 addr, AtomicOrdering o, bool load, bool store) {
  if (!s.multi) return;
  Thread& T = s.th[s.cur]; VC& L = s.atomVC[addr];
  bool acq = load && isAcquireOrStronger(o), rel = store && isReleaseOrStronger(o);
  if (load) { if (acq) joinVC(T.vc, L); else joinVC(T.acqP, L); }
  if (store) {
    VC pub = rel ? T.vc : T.relF;
    if (load) joinVC(L, pub); else L = pub; // an rmw continues the release sequence, a plain store starts a new one
    if (rel) T.vc[s.cur]++;
  }
}

static void step(State& s) {
  Thread& T = s.th[s.cur]; Frame& f = T.st.back(); KInst& ki = f.f->bb[f.bb].in[f.pc]; Instruction* I = ki.I;
  if (ki.sync && !s.schedDone && s.multi) { int before = s.cur; schedPoint(s); if (s.cur != before) return; }
  if (ki.sync || s.schedDone) s.schedDone = false;
  s.instrs++; g_instr++;
  if (s.instrs > s.fuel) fail(s, "nontermination", "path exceeds " + std::to_string(s.fuel) + " instructions");
  auto set = [&](unsigned i, const V& v) { f.regs[ki.dst + i] = v; };
  switch (ki.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      static const std::map<unsigned, Op> mp = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}};
      Op op = mp.at(ki.op);
      for (unsigned i = 0; i < ki.dn; i++) {
        unsigned w = ki.ti->s[i].w; if (w > 64) die("integer wider than 64 bits at %s", locStr(s).c_str());
        V a = get(s, f, ki.ops[0], i), b = get(s, f, ki.ops[1], i);
        if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) { b = simpV(s, b); require(s, mkNot(mkBin(E_EQ, toE(b, w), mkConst(0, w))), "div-by-zero", "division by zero"); }
        if (op == E_SHL || op == E_LSHR || op == E_ASHR) { b = simpV(s, b); require(s, mkBin(E_ULT, mkZext(toE(b, w), 64), mkConst(w, 64)), "shift", "shift by at least the width of the type"); }
        if (!a.e && !b.e) set(i, V(foldOp(op, w, w, a.c, b.c))); else set(i, V(mkBin(op, toE(a, w), toE(b, w))));
      }
      f.pc++; return; }
    case Instruction::ICmp: {
      auto* C = cast<ICmpInst>(I); unsigned w = tinfo(C->getOperand(0)->getType())->s[0].w;
      for (unsigned i = 0; i < ki.dn; i++) {
        V a = get(s, f, ki.ops[0], i), b = get(s, f, ki.ops[1], i);
        bool neg = false, sw = false; Op op;
        switch (C->getPredicate()) {
          case CmpInst::ICMP_EQ: op = E_EQ; break; case CmpInst::ICMP_NE: op = E_EQ; neg = true; break;
          case CmpInst::ICMP_ULT: op = E_ULT; break; case CmpInst::ICMP_UGE: op = E_ULT; neg = true; break;
          case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break; case CmpInst::ICMP_ULE: op = E_ULT; sw = true; neg = true; break;
          case CmpInst::ICMP_SLT: op = E_SLT; break; case CmpInst::ICMP_SGE: op = E_SLT; neg = true; break;
          case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break; default: op = E_SLT; sw = true; neg = true; break;
        }
        if (sw) std::swap(a, b);
        if (!a.e && !b.e) { u64 r = foldOp(op, 1, w, a.c, b.c); set(i, V(neg ? !r : r)); }
        else { E r = mkBin(op, toE(a, w), toE(b, w)); set(i, V(neg ? mkNot(r) : r)); }
      }
      f.pc++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
      const TypeInfo* si = tinfo(I->getOperand(0)->getType());
      if (si->s.size() != ki.dn) die("bitcast between shapes at %s", locStr(s).c_str());
      for (unsigned i = 0; i < ki.dn; i++) {
        V a = get(s, f, ki.ops[0], i); unsigned ws = si->s[i].w, w = ki.ti->s[i].w; if (w > 64 || ws > 64) die("integer wider than 64 bits at %s", locStr(s).c_str());
        if (ki.op == Instruction::SExt) set(i, a.e ? V(mkSext(a.e, w)) : V((u64)sx(a.c, ws) & mask(w)));
        else if (w < ws) set(i, a.e ? V(mkExtract(a.e, 0, w)) : V(a.c & mask(w)));
        else set(i, a.e ? V(mkZext(a.e, w)) : a);
      }
      f.pc++; return; }
    case Instruction::Select: {
      V c = simpV(s, get(s, f, ki.ops[0])); bool vec = ki.ops[0].n > 1;
      for (unsigned i = 0; i < ki.dn; i++) {
        if (vec) c = simpV(s, get(s, f, ki.ops[0], i));
        if (!c.e) { set(i, get(s, f, ki.ops[c.c ? 1 : 2], i)); continue; }
        V a = get(s, f, ki.ops[1], i), b = get(s, f, ki.ops[2], i); unsigned w = ki.ti->s[i].w;
        if (!a.e && !b.e && a.c == b.c) set(i, a); else set(i, V(mkIte(c.e, toE(a, w), toE(b, w))));
      }
      f.pc++; return; }
    case Instruction::GetElementPtr: {
      V b = get(s, f, ki.ops[0]); u64 off = ki.gepOff; E se = b.e; u64 base = b.c;
      E acc = nullptr;
      for (auto& p : ki.gepIdx) {
        V x = get(s, f, ki.ops[p.first]); unsigned w = tinfo(I->getOperand(p.first)->getType())->s[0].w;
        if (!x.e) off += (u64)sx(x.c, w) * p.second;
        else { E t = mkBin(E_MUL, mkSext(x.e, 64), mkConst(p.second, 64)); acc = acc ? mkBin(E_ADD, acc, t) : t; }
      }
      if (!se && !acc) { set(0, V(base + off)); f.pc++; return; }
      E r = se ? se : mkConst(base, 64); if (acc) r = mkBin(E_ADD, r, acc); r = mkBin(E_ADD, r, mkConst(off, 64));
      set(0, V(r)); f.pc++; return; }
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(I); u64 n = conc(s, get(s, f, ki.ops[0])); u64 sz = n * (u64)DL->getTypeAllocSize(A->getAllocatedType());
      u64 a = stackAlloc(s, T, sz, std::max<u64>(1, A->getAlign().value()), "stack:" + (A->hasName() ? A->getName().str() : std::string("tmp")));
      set(0, V(a)); f.pc++; return; }
    case Instruction::Load: {
      auto* L = cast<LoadInst>(I); V addr = get(s, f, ki.ops[0]); u64 off; u64 sz = ki.ti->size;
      if (s.symmem && addr.e && ki.dn == 1 && ki.ti->s[0].ok && !L->isAtomic()) { Obj* so; E se; if (symAddr(s, addr, sz, false, L->getAlign().value(), so, se)) { V v = symLoad(s, so, se, ki.w, L->getAlign().value()); set(0, v); f.pc++; return; } }
      ObjRef* r = resolve(s, addr, sz, false, off, L->getAlign().value()); u64 ad = r->p->base + off;
      if (s.multi) { if (L->isAtomic()) { race(s, r, off, sz, false, true); atomicSync(s, ad, L->getOrdering(), true, false); } else race(s, r, off, sz, false, false); r = findObj(s, ad); }
      for (unsigned i = 0; i < ki.dn; i++) { auto& sl = ki.ti->s[i]; if (!sl.ok) die("load of unsupported type at %s", locStr(s).c_str()); set(i, loadBytes(s, r->p, off + sl.off, sl.w, r)); }
      f.pc++; return; }
    case Instruction::Store: {
      auto* S = cast<StoreInst>(I); Type* VT = S->getValueOperand()->getType(); auto* ti = tinfo(VT); u64 off; u64 sz = ti->size;
      if (s.symmem && ti->s.size() == 1 && ti->s[0].ok && !S->isAtomic()) { V a = get(s, f, ki.ops[1]); Obj* so; E se; if (a.e && symAddr(s, a, sz, true, S->getAlign().value(), so, se)) { V v = get(s, f, ki.ops[0]); symStore(s, so, se, ti->s[0].w, v, S->getAlign().value()); f.pc++; return; } }
      ObjRef* r = resolve(s, get(s, f, ki.ops[1]), sz, true, off, S->getAlign().value()); u64 ad = r->p->base + off;
      if (s.multi) { if (S->isAtomic()) { race(s, r, off, sz, true, true); atomicSync(s, ad, S->getOrdering(), false, true); } else race(s, r, off, sz, true, false); r = findObj(s, ad); }
      Obj* o = writable(*r);
      for (unsigned i = 0; i < ti->s.size(); i++) {
        if (!ti->s[i].ok) die("store of unsupported type at %s", locStr(s).c_str());
        const Opnd& op = ki.ops[0];
        if (op.reg < 0 && op.cv[i].e == &g_undefMark) { unsigned nb = (ti->s[i].w + 7) / 8; memset(&o->st[off + ti->s[i].off], 0, nb); continue; }
        storeBytes(o, off + ti->s[i].off, ti->s[i].w, get(s, f, op, i));
      }
      f.pc++; return; }
    case Instruction::AtomicRMW: {
      auto* R = cast<AtomicRMWInst>(I); unsigned w = ki.w; u64 off; ObjRef* r = resolve(s, get(s, f, ki.ops[0]), ki.ti->size, true, off, R->getAlign().value()); u64 ad = r->p->base + off;
      race(s, r, off, ki.ti->size, true, true); atomicSync(s, ad, R->getOrdering(), true, true); r = findObj(s, ad);
      V old = loadBytes(s, r->p, off, w, r); E a = toE(old, w), b = toE(get(s, f, ki.ops[1]), w), n;
      switch (R->getOperation()) {
        case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = mkBin(E_ADD, a, b); break; case AtomicRMWInst::Sub: n = mkBin(E_SUB, a, b); break;
        case AtomicRMWInst::And: n = mkBin(E_AND, a, b); break; case AtomicRMWInst::Or: n = mkBin(E_OR, a, b); break; case AtomicRMWInst::Xor: n = mkBin(E_XOR, a, b); break; case AtomicRMWInst::Nand: n = mkNot(mkBin(E_AND, a, b)); break;
        case AtomicRMWInst::Max: n = mkIte(mkBin(E_SLT, a, b), b, a); break; case AtomicRMWInst::Min: n = mkIte(mkBin(E_SLT, a, b), a, b); break; case AtomicRMWInst::UMax: n = mkIte(mkBin(E_ULT, a, b), b, a); break; case AtomicRMWInst::UMin: n = mkIte(mkBin(E_ULT, a, b), a, b); break;
        default: die("atomicrmw op"); }
      storeBytes(writable(*r), off, w, V(n)); set(0, old); f.pc++; return; }
    case Instruction::AtomicCmpXchg: {
      auto* X = cast<AtomicCmpXchgInst>(I); unsigned w = ki.ti->s[0].w, nb = (w + 7) / 8; u64 off; ObjRef* r = resolve(s, get(s, f, ki.ops[0]), nb, true, off, X->getAlign().value()); u64 ad = r->p->base + off;
      V old = loadBytes(s, r->p, off, w, r); State* o = nullptr;
      bool eq = decide(s, mkBin(E_EQ, toE(old, w), toE(get(s, f, ki.ops[1]), w)), &o); if (o) g_work.push_back(o);
      r = findObj(s, ad); race(s, r, off, nb, eq, true); atomicSync(s, ad, eq ? X->getSuccessOrdering() : X->getFailureOrdering(), true, eq); r = findObj(s, ad);
      if (eq) storeBytes(writable(*r), off, w, get(s, f, ki.ops[2]));
      set(0, old); set(1, V(eq ? 1 : 0)); f.pc++; return; }
    case Instruction::Fence: {
      if (s.multi) { auto o = cast<FenceInst>(I)->getOrdering(); if (isAcquireOrStronger(o)) joinVC(T.vc, T.acqP); if (isReleaseOrStronger(o)) { T.relF = T.vc; T.vc[s.cur]++; } }
      f.pc++; return; }
    case Instruction::ExtractValue: { auto* X = cast<ExtractValueInst>(I); unsigned k = slotIdx(X->getAggregateOperand()->getType(), X->getIndices()); for (unsigned i = 0; i < ki.dn; i++) set(i, get(s, f, ki.ops[0], k + i)); f.pc++; return; }
    case Instruction::InsertValue: {
      auto* X = cast<InsertValueInst>(I); unsigned k = slotIdx(X->getAggregateOperand()->getType(), X->getIndices()), n = tinfo(X->getInsertedValueOperand()->getType())->s.size();
      std::vector<V> r(ki.dn); for (unsigned i = 0; i < ki.dn; i++) { if (i >= k && i < k + n) r[i] = get(s, f, ki.ops[1], i - k); else { const Opnd& o = ki.ops[0]; r[i] = (o.reg < 0 && o.cv[i].e == &g_undefMark) ? V(0) : get(s, f, o, i); } }
      for (unsigned i = 0; i < ki.dn; i++) set(i, r[i]); f.pc++; return; }
    case Instruction::ExtractElement: { u64 k = conc(s, get(s, f, ki.ops[1])); set(0, get(s, f, ki.ops[0], k)); f.pc++; return; }
    case Instruction::InsertElement: { u64 k = conc(s, get(s, f, ki.ops[2])); std::vector<V> r(ki.dn); for (unsigned i = 0; i < ki.dn; i++) { const Opnd& o = ki.ops[0]; r[i] = i == k ? get(s, f, ki.ops[1]) : (o.reg < 0 && o.cv[i].e == &g_undefMark) ? V(0) : get(s, f, o, i); } for (unsigned i = 0; i < ki.dn; i++) set(i, r[i]); f.pc++; return; }
    case Instruction::ShuffleVector: { auto* X = cast<ShuffleVectorInst>(I); std::vector<V> r(ki.dn); for (unsigned i = 0; i < ki.dn; i++) { int m = X->getMaskValue(i); if (m < 0) r[i] = V(0); else if ((unsigned)m < ki.ops[0].n) r[i] = get(s, f, ki.ops[0], m); else { const Opnd& o = ki.ops[1]; unsigned q = m - ki.ops[0].n; r[i] = (o.reg < 0 && o.cv[q].e == &g_undefMark) ? V(0) : get(s, f, o, q); } } for (unsigned i = 0; i < ki.dn; i++) set(i, r[i]); f.pc++; return; }
    case Instruction::Br: {
      auto* B = cast<BranchInst>(I);
      if (B->isUnconditional()) { jump(s, f, B->getSuccessor(0)); return; }
      V c = get(s, f, ki.ops[0]);
      if (c.e) { State* o = nullptr; bool t = decide(s, c.e, &o); if (o) { jump(*o, o->th[o->cur].st.back(), B->getSuccessor(t ? 1 : 0)); g_work.push_back(o); } jump(s, f, B->getSuccessor(t ? 0 : 1)); }
      else jump(s, f, B->getSuccessor(c.c ? 0 : 1));
      return; }
    case Instruction::Switch: {
      auto* S = cast<SwitchInst>(I); V c = simpV(s, get(s, f, ki.ops[0])); unsigned w = tinfo(S->getCondition()->getType())->s[0].w;
      if (!c.e) { for (auto& cs : S->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { jump(s, f, cs.getCaseSuccessor()); return; } jump(s, f, S->getDefaultDest()); return; }
      for (auto& cs : S->cases()) { State* o = nullptr; bool t = decide(s, mkBin(E_EQ, c.e, mkConst(cs.getCaseValue()->getZExtValue(), w)), &o); if (o) g_work.push_back(o); if (t) { jump(s, f, cs.getCaseSuccessor()); return; } }
      jump(s, f, S->getDefaultDest()); return; }
    case Instruction::Ret: {
      std::vector<V> rv; if (!ki.ops.empty()) { for (unsigned i = 0; i < ki.ops[0].n; i++) { const Opnd& o = ki.ops[0]; rv.push_back((o.reg < 0 && o.cv[i].e == &g_undefMark && o.n > 1) ? V(0) : get(s, f, o, i)); } }
      T.stk.resize(f.mark); T.st.pop_back();
      if (T.st.empty()) {
        if (s.cur != 0) { T.status = T_DONE; if (s.multi) reschedule(s); }
        return;
      }
      Frame& cf = T.st.back(); KInst& ci = cf.f->bb[cf.bb].in[cf.pc];
      if (ci.dst >= 0) for (unsigned i = 0; i < rv.size() && i < ci.dn; i++) cf.regs[ci.dst + i] = rv[i];
      advance(s, cf, ci); return; }
    case Instruction::Unreachable: fail(s, "unreachable", "control reaches a point declared unreachable (missing return or undefined behaviour)");
    case Instruction::Call: case Instruction::Invoke: {
      Function* cal = ki.callee; int b = ki.builtin;
      if (!cal) {
        if (cast<CallBase>(I)->isInlineAsm()) { finish(s, V(0)); return; }
        u64 fa = conc(s, get(s, f, ki.ops.back())); auto it = g_faddr.find(fa); if (it == g_faddr.end()) fail(s, "bad-call", "call through an invalid function pointer");
        cal = it->second; b = builtinId(cal); if (b < 0 && cal->isDeclaration()) b = B_UNKNOWN;
      }
      if (b >= 0) { doBuiltin(s, f, ki, b, cal); return; }
      auto* CB = cast<CallBase>(I); std::vector<std::vector<V>> args;
      unsigned na = CB->arg_size();
      for (unsigned i = 0; i < na; i++) {
        const Opnd& o = ki.ops[i]; std::vector<V> a; for (unsigned j = 0; j < o.n; j++) a.push_back((o.reg < 0 && o.cv[j].e == &g_undefMark && o.n > 1) ? V(0) : get(s, f, o, j));
        if (i < cal->arg_size() && cal->getArg(i)->hasNonNullAttr()) { V p = simpV(s, a[0]); if (p.e || !p.c) require(s, mkNot(mkBin(E_EQ, toE(p, 64), mkConst(0, 64))), "null-access", "null passed as object or reference to " + demangle(cal->getName().str())); }
        if (i < cal->arg_size() && cal->getArg(i)->hasByValAttr()) a[0] = V(conc(s, a[0]));
        args.push_back(std::move(a));
      }
      if (args.size() > cal->arg_size()) args.resize(cal->arg_size());
      if (args.size() < cal->arg_size()) fail(s, "bad-call", "call with too few arguments");
      pushCall(s, T, kfunc(cal), args); return; }
    case Instruction::PHI: die("phi reached");
    default: die("unsupported instruction %s at %s", I->getOpcodeName(), locStr(s).c_str());
  }
}

// ---------------------------------------------------------------- module setup
static u64 g_gnext = GBASE;
static void layoutGlobals() {
  u64 fa = FBASE;
  for (auto& F : *g_mod) { if (F.isIntrinsic()) continue; fa += 16; g_gaddr[&F] = fa; g_faddr[fa] = &F; }
  if (fa > GBASE - 4096) die("too many functions");
  for (auto& G : g_mod->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); u64 al = G.getAlign() ? G.getAlign()->value() : DL->getPreferredAlign(&G).value(); u64 a = placeAt(g_gnext, al); g_gnext = a + sz + 64; g_gaddr[&G] = a; }
}
static void initConst(Obj* o, u64 off, const Constant* C) {
  if (isa<UndefValue>(C)) { memset(&o->st[off], 1, tinfo(C->getType())->size); return; }
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + L->getElementOffset(i), cast<Constant>(cs->getOperand(i))); return; }
  if (auto* ca = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, cast<Constant>(ca->getOperand(i))); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef d = cd->getRawDataValues(); memcpy(&o->d[off], d.data(), d.size()); return; }
  std::vector<V> v; constSlots(C, v); auto* ti = tinfo(C->getType());
  for (size_t i = 0; i < v.size(); i++) { unsigned nb = (ti->s[i].w + 7) / 8; memcpy(&o->d[off + ti->s[i].off], &v[i].c, std::min(nb, 8u)); }
}
static State* initState() {
  State* s = new State();
  for (auto& G : g_mod->globals()) {
    u64 a = g_gaddr[&G], sz = DL->getTypeAllocSize(G.getValueType()); Obj* o = newObj(a, sz, K_GLOBAL); o->name = "global:" + demangle(G.getName().str()); std::fill(o->st.begin(), o->st.end(), 1);
    if (G.hasInitializer()) initConst(o, 0, G.getInitializer());
    o->ro = G.isConstant(); s->globals.push_back(ObjRef(o));
  }
  s->th.emplace_back(); s->th[0].stackNext = SBASE + 4096; s->heapNext = HBASE;
  return s;
}
static std::vector<Function*> ctors() {
  std::vector<std::pair<u64, Function*>> v; auto* G = g_mod->getNamedGlobal("llvm.global_ctors");
  if (G && G->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& o : A->operands()) { auto* S = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  std::vector<Function*> r; for (auto& p : v) r.push_back(p.second); return r;
}

// ---------------------------------------------------------------- output
static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string g_entry;
static void emitResult() {
  for (auto* k : g_execd) {
    if (auto* sp = k->F->getSubprogram()) { std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; fn = normPath(fn); if (fn.rfind(optRepoPrefix, 0) == 0) { std::string d = demangle(k->F->getName().str()); if (d.size() > 300) d = d.substr(0, 300); g_funcs.insert(fn.substr(optRepoPrefix.size()) + ": " + d); } }
  }
  std::string o = "{\"entry\":" + js(g_entry);
  auto num = [&](const char* k, double v) { char b[64]; snprintf(b, sizeof b, ",\"%s\":%.17g", k, v); o += b; };
  num("paths", g_pathsDone); num("forks", g_forks); num("instructions", g_instr); num("checks", g_checks); num("infeasible", g_infeasible); num("max_path_instr", g_maxInstr);
  num("queries", g_ss.queries); num("cache_hits", g_ss.cacheHits); num("model_hits", g_ss.modelHits); num("z3_calls", g_ss.z3calls); num("z3_time", g_ss.z3time); num("z3_max", g_ss.maxq); num("z3_sat", g_ss.sat); num("z3_unsat", g_ss.unsat); num("z3_unknown", g_ss.unknown); num("exprs", exprCount());
  o += ",\"reach\":{"; bool first = true; for (auto& p : g_reach) { if (!first) o += ","; first = false; o += js(p.first) + ":" + std::to_string(p.second); } o += "}";
  o += ",\"incomplete\":{"; first = true; for (auto& p : g_incomplete) { if (!first) o += ","; first = false; o += js(p.first) + ":" + std::to_string(p.second); } o += "}";
  o += ",\"functions\":["; first = true; for (auto& p : g_funcs) { if (!first) o += ","; first = false; o += js(p); } o += "]";
  o += ",\"traces\":["; first = true;
  auto inp = [&](const std::vector<Input>& in, const std::vector<u64>& v) { std::string r = "["; for (size_t i = 0; i < in.size(); i++) { if (i) r += ","; r += "[" + js(in[i].name) + ",\"" + std::to_string(v[i]) + "\"]"; } return r + "]"; };
  for (auto& t : g_traces) { if (!first) o += ","; first = false; o += "{\"multi\":" + std::to_string(t.multi) + ",\"inputs\":" + inp(t.in, t.v) + "}"; }
  o += "]";
  o += ",\"violations\":["; first = true;
  for (auto& v : g_viols) {
    if (!first) o += ","; first = false;
    o += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"loc\":" + js(v.loc) + ",\"stack\":" + js(v.stack) + ",\"inputs\":[";
    for (size_t i = 0; i < v.inputs.size(); i++) { if (i) o += ","; o += "[" + js(v.inputs[i].name) + ",\"" + std::to_string(v.vals[i]) + "\"]"; }
    o += "],\"schedule\":["; for (size_t i = 0; i < v.sched.size(); i++) { if (i) o += ","; o += std::to_string(v.sched[i]); } o += "]}";
  }
  o += "]}\n";
  int fd = optOut.empty() ? 1 : open(optOut.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
  const char* p = o.data(); size_t n = o.size(); while (n) { ssize_t k = write(fd, p, n); if (k <= 0) break; p += k; n -= k; }
}

static int g_tokFd = -1; static volatile uint32_t* g_pending = nullptr; // entries the runner has not started yet: they go before splits
static bool takeToken(bool block) {
  if (g_tokFd < 0) return block;
  char c; while (true) { ssize_t k = read(g_tokFd, &c, 1); if (k == 1) return true; if (!block) return false; usleep(5000); if (g_shared->stop == 2) return false; }
}
static void giveToken() { if (g_tokFd >= 0) { char c = 't'; (void)!write(g_tokFd, &c, 1); } }
static std::vector<pid_t> g_kids;
static bool g_isChild = false;

static void resetStats() {
  g_paths = g_pathsDone = g_forks = g_instr = g_checks = g_infeasible = g_maxInstr = 0; g_ss = SolverStats(); g_reach.clear(); g_incomplete.clear(); g_viols.clear(); g_traces.clear(); g_kids.clear();
}
// returns true in the new child
static bool maybeSplit() {
  if (g_work.size() < 2 || g_tokFd < 0 || (g_pending && *g_pending)) return false;
  if (!takeToken(false)) return false;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { giveToken(); return false; }
  // the child takes every other pending state (shallow ones first), the parent keeps the rest
  std::vector<State*> keep, give;
  for (size_t i = 0; i < g_work.size(); i++) (i % 2 == 0 ? give : keep).push_back(g_work[i]);
  if (p == 0) { g_work = give; resetStats(); g_isChild = true; }
  else { g_kids.push_back(p); g_work = keep; for (auto* s : give) delete s; }
  return p == 0;
}

static bool timeUp() { return nowS() - g_t0 > optDeadline; }

static void explore(State* init) {
  g_work.push_back(init);
  auto cts = ctors(); u64 tick = 0;
  (void)cts;
  while (!g_work.empty()) {
    if (g_shared->stop || timeUp()) { if (timeUp()) g_incomplete["time limit reached"] += g_work.size(); else g_incomplete["stopped after violations"] += g_work.size(); break; }
    State* s = g_work.back(); g_work.pop_back();
    bool done = false;
    try {
      while (!s->th[0].st.empty()) {
        step(*s);
        if ((++tick & 255) == 0) {
          if (maybeSplit()) { delete s; s = nullptr; break; }
          if ((tick & 0xffff) == 0 && (g_shared->stop || timeUp())) { g_incomplete[timeUp() ? "time limit reached" : "stopped after violations"]++; delete s; s = nullptr; break; }
        }
      }
      done = true;
    } catch (Terminate&) {}
    if (!s) continue;
    if (done) { g_pathsDone++; g_maxInstr = std::max(g_maxInstr, s->instrs);
      static u64 rng = 88172645463325252ull; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
      if (g_traces.size() < 3 || rng % g_pathsDone < 3) { Trace t; t.in = s->inputs; t.multi = s->multi; t.sched = s->sched; for (auto& i : s->inputs) t.v.push_back(i.e ? evalExpr(i.e, s->model) : i.c); if (g_traces.size() < 3) g_traces.push_back(t); else g_traces[rng / g_pathsDone % 3] = t; } }
    delete s;
    if (optMaxPaths && g_pathsDone > optMaxPaths) { g_incomplete["path limit"]++; break; }
  }
}

static void runPassPipeline() {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "globaldce,function(sroa,early-cse,simplifycfg),globaldce")) die("pass pipeline");
  MPM.run(*g_mod, MAM);
}

static int selftest(u64 seed, int n);
#include "selftest.inc"

int main(int argc, char** argv) {
  bool list = false; int self = 0; u64 seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { if (++i >= argc) die("missing value for %s", a.c_str()); return std::string(argv[i]); };
    if (a == "--out") optOut = nx(); else if (a == "--entry") optEntries.push_back(nx()); else if (a == "--tokens") optTokens = nx(); else if (a == "--deadline") optDeadline = atof(nx().c_str());
    else if (a == "--max-instr") optMaxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--preempt") optPreempt = atoi(nx().c_str()); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if (a == "--z3-timeout") g_z3_timeout_ms = atoi(nx().c_str());
    else if (a == "--conc-limit") optConcLimit = strtoull(nx().c_str(), 0, 10); else if (a == "--dump") g_dumpdir = nx(); else if (a == "--dump-every") g_dumpevery = atoi(nx().c_str()); else if (a == "--ctl") { int fd = open(nx().c_str(), O_RDWR); if (fd < 0) die("ctl"); g_pending = (volatile uint32_t*)mmap(nullptr, 4096, PROT_READ, MAP_SHARED, fd, 0); } else if (a == "--trace") optTrace = true; else if (a == "--replay") optReplay = nx(); else if (a == "--repo") optRepoPrefix = nx(); else if (a == "--list") list = true; else if (a == "--max-paths") optMaxPaths = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") optTierVal = strtoull(nx().c_str(), 0, 10); else if (a == "--selftest") self = atoi(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else optBc = a;
  }
  g_t0 = nowS();
  g_shared = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)g_shared, 0, sizeof(Shared));
  if (self) { solverInit(); return selftest(seed, self); }
  struct rlimit rl = {64ull << 20, RLIM_INFINITY}; getrlimit(RLIMIT_STACK, &rl);
  g_ctx = new LLVMContext(); SMDiagnostic err; g_mod = parseIRFile(optBc, err, *g_ctx); if (!g_mod) { err.print("ksym", errs()); return 70; }
  // keep only what the entries need
  if (optEntries.empty()) for (auto& F : *g_mod) if (!F.isDeclaration() && F.getName().starts_with("entry_")) optEntries.push_back(F.getName().str());
  if (list) { for (auto& e : optEntries) printf("%s\n", e.c_str()); return 0; }
  DL = &g_mod->getDataLayout();
  runPassPipeline();
  DL = &g_mod->getDataLayout();
  layoutGlobals();
  if (!optReplay.empty()) {
    FILE* fp = fopen(optReplay.c_str(), "r"); if (!fp) die("cannot open %s", optReplay.c_str()); char ln[512];
    while (fgets(ln, sizeof ln, fp)) { std::string l = ln; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (l.empty() || l[0] == '#') continue; size_t sp = l.rfind(' '); if (l.rfind("sched ", 0) == 0) { g_replaySched.push_back(atoi(l.c_str() + 6)); continue; } g_replayIn.push_back({l.substr(0, sp), strtoull(l.c_str() + sp + 1, 0, 10)}); }
    fclose(fp);
  }
  if (!optTokens.empty()) { g_tokFd = open(optTokens.c_str(), O_RDWR | O_NONBLOCK); if (g_tokFd < 0) die("tokens"); }
  std::vector<pid_t> ps; int bad = 0;
  for (auto& e : optEntries) {
    if (g_shared->stop) break;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      g_entry = e; solverInit();
      Function* F = g_mod->getFunction(e); if (!F || F->isDeclaration()) { giveToken(); die("no entry %s", e.c_str()); }
      State* s = initState();
      // constructors of globals first; they are concrete
      State* cur = s;
      try { for (auto* C : ctors()) { pushCall(*cur, cur->th[0], kfunc(C), {}); while (!cur->th[0].st.empty()) step(*cur); } } catch (Terminate&) { fprintf(stderr, "ksym: path ended in a global constructor\n"); }
      cur->instrs = 0;
      pushCall(*cur, cur->th[0], kfunc(F), {});
      explore(cur);
      emitResult(); giveToken();
      int rc = 0; for (auto k : g_kids) { int st; if (waitpid(k, &st, 0) < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) rc = 71; }
      _exit(rc);
    }
    ps.push_back(p);
  }
  for (auto p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = WIFEXITED(st) ? WEXITSTATUS(st) : 71; g_shared->stop = 2; } }
  return bad;
}
