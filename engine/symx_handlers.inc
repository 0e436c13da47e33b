// ---------------------------------------------------------------- handlers
static void H(const char* names, Handler h) {
  std::istringstream ss(names); string n;
  while (ss >> n) { handlerIdx[n] = (int)handlers.size(); handlers.push_back(h); handlerNames.push_back(n); }
}
#define HF [](State& s, CInst& ci, vector<Val>& a, Val& r) -> bool
static uint64_t doMalloc(State& s, uint64_t n, int kind, bool zero = false) {
  uint32_t id = s.mem.alloc(n, OHeap, !zero);
  s.mem.mut(id)->allocKind = kind; s.heapLive += n;
  return addrOf(id);
}
// allocations beyond the limit fail
static bool tooBig(State& s, const Val& n) { return branch(s, icmp(UGT, n, Val(64, opt.allocLimit))); }
static bool throwBadAlloc(State& s) {
  Function* f = mod->getFunction("symx_throw_bad_alloc");
  if (!f || f->isDeclaration()) throw Violation{"abort", "std::bad_alloc (allocation of an absurd size)"};
  pushFrame(s, f, {});
  return false;
}
static void doFree(State& s, uint64_t p, int kind) {
  if (!p) return;
  uint32_t id = p >> 32; uint64_t off = (p & 0xffffffffull) - BASE;
  Obj* o = s.mem.get(id);
  if (!o || o->kind != OHeap || off != 0) throw Violation{"invalid-free", "free of a pointer that was not returned by an allocation"};
  if (o->freed) throw Violation{"double-free", "memory released twice"};
  if (o->allocKind != kind) throw Violation{"alloc-dealloc-mismatch", "allocation and release functions do not match"};
  if (raceOn(s)) raceAccess(s, p, std::min<uint32_t>(o->size, 64), true);
  o = s.mem.mut(id);
  s.heapLive -= o->size;
  o->freed = true; vector<uint8_t>().swap(o->d); vector<SymB>().swap(o->sh);
}
static void doMemset(State& s, uint64_t p, const Val& b, uint64_t n) {
  if (!n) return;
  objAt(s, p, n, true, "write");
  if (n > (1u << 30)) throw Violation{"out-of-bounds", "memset of a huge number of bytes"};
  if (raceOn(s)) raceAccess(s, p, n, true);
  uint64_t off = (p & 0xffffffffull) - BASE;
  Obj* o = s.mem.mut(p >> 32);
  if (b.isC()) { memset(&o->d[off], (int)b.lo, n); if (!o->sh.empty()) for (uint64_t i = 0; i < n; i++) o->sh[off + i].v = nullptr; }
  else { if (o->sh.empty()) o->sh.assign(o->size, SymB{nullptr, 0}); const Val* v = new Val(b); for (uint64_t i = 0; i < n; i++) o->sh[off + i] = {v, 0}; }
}
static Val memcmpV(State& s, uint64_t p, uint64_t q, uint64_t n, bool stopNul) {
  // stop at the first concrete difference
  vector<std::pair<Val, Val>> bs; bool end = false;
  for (uint64_t i = 0; i < n && !end; i++) {
    Val x = loadScalarC(s, p + i, 8, false), y = loadScalarC(s, q + i, 8, false);
    bs.push_back({x, y});
    if (x.isC() && y.isC() && x.lo != y.lo) end = true;
    if (stopNul && ((x.isC() && !x.lo) || (y.isC() && !y.lo))) end = true;
  }
  Val r(32, 0);
  for (size_t i = bs.size(); i-- > 0;) {
    const Val &x = bs[i].first, &y = bs[i].second;
    Val d = icmp(EQ, x, y);
    Val lt = icmp(ULT, x, y);
    Val diff = lt.isC() ? Val(32, lt.lo ? (uint64_t)-1 : 1) : mkIte(lt.e, Val(32, (uint64_t)-1), Val(32, 1));
    if (stopNul) { // equal and non-nul: continue
      Val z = icmp(EQ, x, Val(8, 0));
      Val onEq = z.isC() ? (z.lo ? Val(32, 0) : r) : mkIte(z.e, Val(32, 0), r);
      r = d.isC() ? (d.lo ? onEq : diff) : mkIte(d.e, onEq, diff);
    } else r = d.isC() ? (d.lo ? r : diff) : mkIte(d.e, r, diff);
  }
  return r;
}
static string uniqueName(State& s, const string& base) {
  int n = s.names[base]++;
  return base + "#" + std::to_string(n);
}
static Val freshInput(State& s, const string& base, Kind k, unsigned w) {
  int id = getSym(uniqueName(s, base), k, w);
  s.inputs.push_back(id);
  return Val::expr(k, w, syms[id].e);
}
static Val mathUn(State& s, CInst& ci, vector<Val>& a) { return a[0]; }
static bool checkAssert(State& s, const Val& c, const string& label) {
  st.asserts++; st.assertLabels[label]++;
  Val b = c.w == 1 ? c : icmp(NE, c, Val(c.w, 0));
  if (b.isC()) {
    st.assertConcrete++;
    if (b.lo) return true;
    if (!report(s, "assert", label, nullptr, nullptr)) throw Terminate{"infeasible", false};
    throw Terminate{"assertion failed", false};
  }
  Z3_ast neg = mkNot(b.e);
  AsgP m; bool v;
  if (evalBool(s, b.e, v) && !v) { report(s, "assert", label, neg, nullptr); }
  else {
    st.assertQueries++;
    Res r = check(s, neg, &m, opt.assertTimeout);
    if (r == UNSAT) { st.assertUnsat++; return true; }
    if (r == UNK && opt.real) {  // a counterexample with true function values?
      vector<Z3_ast> cs; AsgP nm; sliceFor(s, nullptr, cs); cs.push_back(neg);
      if (numericModel(s, cs, s.model, nm)) { report(s, "assert", label, neg, nm); pushPC(s, b.e); s.modelOk = false; return true; }
    }
    if (r == UNK) { st.undecided++; incomplete("assertion undecided by the solver: " + label); pushPC(s, b.e); s.modelOk = false; return true; }
    report(s, "assert", label, neg, m);
  }
  // go on with the assertion assumed, if possible
  AsgP m2;
  if (check(s, b.e, &m2) == UNSAT) throw Terminate{"assertion failed", false};
  pushPC(s, b.e); if (m2) s.model = mergeAsg(s.model, m2); else s.modelOk = false;
  return true;
}
// drop constraints that only define auxiliary functions when the assertion does
// not need them: handled by slicing.
static void initHandlers() {
  // ---- symx API
  H("symx_u64", HF { r = freshInput(s, readStr(s, a[0]), KB, 64); return true; });
  H("symx_u32", HF { r = freshInput(s, readStr(s, a[0]), KB, 32); return true; });
  H("symx_u16", HF { r = freshInput(s, readStr(s, a[0]), KB, 16); return true; });
  H("symx_u8", HF { r = freshInput(s, readStr(s, a[0]), KB, 8); return true; });
  H("symx_f64", HF { r = freshInput(s, readStr(s, a[0]), opt.real ? KR : KF, 64); return true; });
  H("symx_f32", HF { r = freshInput(s, readStr(s, a[0]), opt.real ? KR : KF, 32); return true; });
  H("symx_range", HF {
    int64_t lo = (int64_t)a[1].lo, hi = (int64_t)a[2].lo;
    if (!a[1].isC() || !a[2].isC()) throw Terminate{"symbolic range bounds", true};
    if (lo == hi) { // still an input, for replay
      string n = uniqueName(s, readStr(s, a[0])); int id = getSym(n, KB, 64); syms[id].ranged = true; syms[id].lo = lo; syms[id].hi = hi; s.inputs.push_back(id);
      auto m = std::make_shared<Asg>(); m->v[id] = numBV(64, lo); s.model = mergeAsg(s.model, m); pushPC(s, keep(Z3_mk_eq(Z, syms[id].e, numBV(64, lo))));
      r = Val(64, lo); return true; }
    string n = uniqueName(s, readStr(s, a[0])) + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]";
    int id = getSym(n, KB, 64);
    syms[id].ranged = true; syms[id].lo = lo; syms[id].hi = hi;
    s.inputs.push_back(id);
    auto m = std::make_shared<Asg>(); m->v[id] = numBV(64, (uint64_t)lo);
    if (s.modelOk) s.model = mergeAsg(s.model, m);
    Z3_ast e = syms[id].e;
    pushPC(s, mkAnd(keep(Z3_mk_bvsle(Z, numBV(64, (uint64_t)lo), e)), keep(Z3_mk_bvsle(Z, e, numBV(64, (uint64_t)hi)))));
    r = Val::expr(KB, 64, e); return true; });
  H("symx_concretize", HF { r = Val::c128(a[0].w, concretize128(s, a[0])); return true; });
  H("symx_is_symbolic", HF { r = Val(32, a[0].isC() ? 0 : 1); return true; });
  H("symx_param", HF { string n = readStr(s, a[0]); auto it = opt.params.find(n); r = it == opt.params.end() ? a[1] : Val(64, (uint64_t)it->second); return true; });
  H("symx_native", HF { r = Val(32, 0); return true; });
  H("symx_assume_impl", HF {
    Val c = a[0].w == 1 ? a[0] : icmp(NE, a[0], Val(a[0].w, 0));
    if (c.isC()) { if (!c.lo) throw Terminate{"assume", false}; return true; }
    bool v;
    if (evalBool(s, c.e, v) && v) { pushPC(s, c.e); return true; }
    AsgP m; Res q = check(s, c.e, &m);
    if (q == UNSAT) throw Terminate{"assume", false};
    if (q == UNK) { st.notes.insert("assumption not decided: kept"); s.maybe = true; }
    pushPC(s, c.e);
    if (m && s.modelOk) { s.model = mergeAsg(s.model, m); if (opt.real && (!evalBool(s, c.e, v) || !v)) s.modelOk = false; } else s.modelOk = false;
    return true; });
  H("symx_assert_impl", HF { return checkAssert(s, a[0], readStr(s, a[1])); });
  H("symx_reach", HF { st.reach[readStr(s, a[0])]++; return true; });
  H("symx_event", HF { if (s.events.size() < 200) { string e = readStr(s, a[0]); for (size_t i = 1; i < a.size(); i++) e += a[i].isC() ? " " + std::to_string((int64_t)a[i].lo) : " <sym>"; s.events.push_back(e); } return true; });
  H("symx_debug", HF { fprintf(stderr, "DEBUG %s", readStr(s, a[0]).c_str()); for (size_t i = 1; i < a.size(); i++) if (a[i].isC()) fprintf(stderr, " %llx", (unsigned long long)a[i].lo); else fprintf(stderr, " %s", a[i].k == KA ? "agg" : Z3_ast_to_string(Z, a[i].e)); fprintf(stderr, "\n"); return true; });
  H("symx_check_failed symx_fatal", HF { doAbort(s, readStr(s, a[0])); return false; });
  H("symx_unreachable", HF { throw Violation{"assert", readStr(s, a[0])}; return false; });
  H("symx_skip", HF { throw Terminate{"skip", false}; return false; });
  H("symx_unsupported", HF { throw Terminate{"unsupported: " + readStr(s, a[0]), true}; return false; });
  H("symx_try_impl", HF {
    auto it = funcById.find(a[0].lo >> 32);
    if (it == funcById.end()) throw Terminate{"symx_try target", true};
    std::shared_ptr<const Snap> snap;
    if (s.th.size() == 1) snap = std::make_shared<const Snap>(Snap{s.mem, s.mtx, s.exc, s.caught, s.curExc, s.heapLive});
    pushFrame(s, it->second, {a[1]});
    s.top().tryMarker = true; s.top().snap = snap;
    return false; });
  H("symx_yield", HF { schedPoint(s); return true; });
  // blocks until the 32-bit word at a[0] is non-zero (harness-level condition)
  H("symx_block_until", HF {
    schedPoint(s);
    Val v = loadScalarC(s, a[0].lo, 32, false, true);
    if (v.isC() && v.lo == 0) { s.t().st = TFutex; s.t().waitAddr = a[0].lo; s.t().aux = 0; switchAway(s); return false; }
    return true; });
  H("symx_store_sync", HF { storeScalarC(s, a[0].lo, a[1], true); return true; });
  H("symx_load_sync", HF { r = loadScalarC(s, a[0].lo, 32, false, true); return true; });
  H("symx_heap_bytes", HF { r = Val(64, s.heapLive); return true; });
  H("symx_num_blocked", HF { int n = 0; for (auto& t : s.th) if (t.st != TRun && t.st != TDone) n++; r = Val(32, n); return true; });
  // is any other thread able to run?
  H("symx_others_enabled", HF { int n = 0; for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && enabled(s, i)) n++; r = Val(32, n); return true; });
  H("symx_thread_id", HF { r = Val(32, s.cur); return true; });
  // symx_settle: let the other threads run until none of them can; the current
  // thread only resumes when everybody else is blocked or finished.
  H("symx_settle", HF {
    bool any = false; for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && enabled(s, i)) any = true;
    if (!any) return true;
    s.t().st = TSettle; switchAway(s);
    return false; });
  // real mode
  H("symx_diff_value", HF {  // derivative of a[0] with respect to input a[1]
    if (!opt.real) throw Terminate{"symx_diff needs real mode", true};
    if (a[1].isC()) throw Terminate{"derivative with respect to a constant", true};
    Z3_ast e = a[0].isC() ? zero_() : rdiff(s, a[0].e, a[1].e);
    r = realBack(e, 64); return true; });
  H("symx_real_eq_impl", HF {  // a[0] == a[1] as real-valued terms, label a[2], tolerance a[3]
    string label = readStr(s, a[2]);
    if (!opt.real) throw Terminate{"symx_real_eq needs real mode", true};
    for (int q = 0; q < 2; q++) if (a[q].isC() && !std::isfinite(toD(a[q]))) return checkAssert(s, Val(1, a[0].isC() && a[1].isC() && a[0].lo == a[1].lo), label);
    Z3_ast d = rSub(asReal(a[0]), asReal(a[1]));
    d = splitItes(s, d);
    const Z3_ast d0 = d;
    bool decided = false;
    try {
      RF f = rfReduce(s, toRF(s, d));
      if (f.n.empty()) { st.asserts++; st.assertLabels[label]++; 
        // the normal form is the zero polynomial: hand the (now trivial) obligation to the solver
        st.assertQueries++; if (check(s, keep(Z3_mk_not(Z, keep(Z3_mk_eq(Z, polyToAst(f.n), zero_())))), nullptr) == UNSAT) { st.assertUnsat++; decided = true; } }
      else {
        bool isConst = f.n.size() == 1 && f.n.begin()->first.empty() && f.d.size() == 1 && f.d.begin()->first.empty();
        if (isConst) d = numRat(f.n.begin()->second / f.d.begin()->second);
        else {
          // tiny rounding-level coefficients (program constants such as 1/sqrt(2))
          d = f.n.size() < 3000 && f.d.size() < 3000 ? rDiv(polyToAst(f.n), polyToAst(f.d)) : d;
        }
      }
    } catch (Terminate& t) { if (!t.isIncomplete) throw; }
    if (decided) return true;
    // |d| <= tol * (1 + |a| ) relaxed to an absolute tolerance
    Z3_ast tol = asReal(a[3]);
    { Z3_ast c0 = mkAnd(rLe(d0, tol), rLe(rNeg(tol), d0)); AsgP nm; vector<Z3_ast> cs;
      sliceFor(s, nullptr, cs); cs.push_back(mkNot(c0));
      if (numericModel(s, cs, s.model, nm, d0)) {
        st.asserts++; st.assertLabels[label]++; st.assertQueries++;
        report(s, "assert", label, mkNot(c0), nm, d0); pushPC(s, c0); s.modelOk = false; return true; } }
    Z3_ast c = mkAnd(rLe(d, tol), rLe(rNeg(tol), d));
    return checkAssert(s, mkB(1, c), label); });
  H("symx_is_real_mode", HF { r = Val(32, opt.real); return true; });

  // ---- allocation
  H("malloc", HF { if (tooBig(s, a[0])) { r = Val(64, 0); return true; } r = Val(64, doMalloc(s, concretize(s, a[0]), 0)); return true; });
  H("_Znwm _ZnwmSt11align_val_t", HF { if (tooBig(s, a[0])) return throwBadAlloc(s); r = Val(64, doMalloc(s, concretize(s, a[0]), 1)); return true; });
  H("_Znam _ZnamSt11align_val_t", HF { if (tooBig(s, a[0])) return throwBadAlloc(s); r = Val(64, doMalloc(s, concretize(s, a[0]), 2)); return true; });
  H("_ZnwmRKSt9nothrow_t", HF { if (tooBig(s, a[0])) { r = Val(64, 0); return true; } r = Val(64, doMalloc(s, concretize(s, a[0]), 1)); return true; });
  H("_ZnamRKSt9nothrow_t", HF { if (tooBig(s, a[0])) { r = Val(64, 0); return true; } r = Val(64, doMalloc(s, concretize(s, a[0]), 2)); return true; });
  H("calloc", HF { uint64_t n = concretize(s, a[0]), m = concretize(s, a[1]); if (n && m > opt.allocLimit / n) { r = Val(64, 0); return true; } r = Val(64, doMalloc(s, n * m, 0, true)); return true; });
  H("aligned_alloc memalign", HF { r = Val(64, doMalloc(s, concretize(s, a[1]), 0)); return true; });
  H("posix_memalign", HF { uint64_t p = doMalloc(s, concretize(s, a[2]), 0); storeScalarC(s, a[0].lo, Val(64, p)); r = Val(32, 0); return true; });
  H("realloc", HF {
    if (tooBig(s, a[1])) { r = Val(64, 0); return true; }
    uint64_t n = concretize(s, a[1]), p = concretize(s, a[0]);
    uint64_t q = doMalloc(s, n, 0);
    if (p) { Obj* o = objAt(s, p, 0, false, "realloc"); copyBytes(s, q, p, std::min<uint64_t>(n, o->size)); doFree(s, p, 0); }
    r = Val(64, q); return true; });
  H("free", HF { doFree(s, concretize(s, a[0]), 0); return true; });
  H("_ZdlPv _ZdlPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdlPvRKSt9nothrow_t", HF { doFree(s, concretize(s, a[0]), 1); return true; });
  H("_ZdaPv _ZdaPvm _ZdaPvSt11align_val_t _ZdaPvmSt11align_val_t _ZdaPvRKSt9nothrow_t", HF { doFree(s, concretize(s, a[0]), 2); return true; });
  // ---- memory
  H("memcpy memmove", HF { uint64_t n = concretize(s, a[2]), d = concretize(s, a[0]), q = concretize(s, a[1]); copyBytes(s, d, q, n); r = Val(64, d); return true; });
  H("memset", HF { uint64_t n = concretize(s, a[2]), d = concretize(s, a[0]); doMemset(s, d, extractV(a[1], 7, 0), n); r = Val(64, d); return true; });
  H("memcmp bcmp", HF { uint64_t n = concretize(s, a[2]), p = concretize(s, a[0]), q = concretize(s, a[1]); r = memcmpV(s, p, q, n, false); return true; });
  H("strlen", HF { uint64_t p = concretize(s, a[0]); for (uint64_t i = 0;; i++) { Val b = loadScalarC(s, p + i, 8, false); if (branch(s, icmp(EQ, b, Val(8, 0)))) { r = Val(64, i); return true; } } });
  H("strcmp", HF { r = memcmpV(s, concretize(s, a[0]), concretize(s, a[1]), 1 << 20, true); return true; });
  H("strncmp", HF { r = memcmpV(s, concretize(s, a[0]), concretize(s, a[1]), concretize(s, a[2]), true); return true; });
  H("memchr", HF { uint64_t p = concretize(s, a[0]), n = concretize(s, a[2]); Val c = extractV(a[1], 7, 0);
    for (uint64_t i = 0; i < n; i++) if (branch(s, icmp(EQ, loadScalarC(s, p + i, 8, false), c))) { r = Val(64, p + i); return true; }
    r = Val(64, 0); return true; });
  // ---- process / runtime
  H("abort", HF { doAbort(s, "abort() called"); return false; });
  H("_ZSt9terminatev __cxa_pure_virtual __clang_call_terminate _ZSt10unexpectedv", HF { doAbort(s, "std::terminate called"); return false; });
  H("__assert_fail", HF { doAbort(s, "assert: " + readStr(s, a[0])); return false; });
  H("exit _exit", HF { throw Terminate{"exit", false}; return false; });
  H("__cxa_atexit __cxa_thread_atexit atexit", HF { r = Val(32, 0); return true; });
  H("__cxa_guard_acquire", HF { Val g = loadScalarC(s, a[0].lo, 8, false, true); if (g.isC() && g.lo) {
      if (raceOn(s)) { auto& v = s.syncvc[a[0].lo]; raceSync(s.t().vc, v); }
      r = Val(32, 0); } else r = Val(32, 1); return true; });
  H("__cxa_guard_release", HF { storeScalarC(s, a[0].lo, Val(8, 1), true); s.syncvc[a[0].lo] = s.t().vc; if (s.th.size() > 1) tick(s.t(), s.cur); return true; });
  H("__cxa_guard_abort", HF { return true; });
  H("__cxa_allocate_exception", HF { uint64_t p = doMalloc(s, std::max<uint64_t>(concretize(s, a[0]), 1) + 0, 0, true); r = Val(64, p); return true; });
  H("__cxa_init_primary_exception", HF { ExcInfo e; e.tinfo = a[1].lo; e.dtor = a[2].lo; s.exc[a[0].lo] = e; r = a[0]; return true; });
  H("__cxa_free_exception", HF { return true; });
  H("__cxa_throw", HF { ExcInfo e; e.tinfo = a[1].lo; e.dtor = a[2].lo; s.exc[a[0].lo] = e; doThrow(s, a[0].lo); return false; });
  H("__cxa_begin_catch __cxa_get_exception_ptr", HF {
    if (handlerNames[ci.handler] == "__cxa_begin_catch") s.caught.push_back(a[0].lo);
    r = a[0]; return true; });
  H("__cxa_end_catch", HF { if (!s.caught.empty()) s.caught.pop_back(); return true; });
  H("__cxa_rethrow", HF { if (s.caught.empty()) { doAbort(s, "rethrow without exception"); return false; } uint64_t e = s.caught.back(); doThrow(s, e); return false; });
  H("_Unwind_Resume", HF { s.curExc = a[0].lo; popFrame(s); unwindFrom(s, false); return false; });
  H("symx_current_exception", HF { r = Val(64, s.caught.empty() ? 0 : s.caught.back()); return true; });
  H("symx_rethrow", HF { doThrow(s, a[0].lo); return false; });
  H("__dynamic_cast", HF {
    uint64_t p = concretize(s, a[0]), dst = a[2].lo;
    if (!p) { r = Val(64, 0); return true; }
    uint64_t vt = loadScalarC(s, p, 64, false, true).lo;
    int64_t top = (int64_t)loadScalarC(s, vt - 16, 64, false, true).lo;
    uint64_t ti = loadScalarC(s, vt - 8, 64, false, true).lo;
    int64_t off;
    if (tiDerived(s, ti, dst, off)) r = Val(64, p + top + off); else r = Val(64, 0);
    return true; });
  H("_ZNSt8ios_base4InitC1Ev _ZNSt8ios_base4InitD1Ev", HF { return true; });
  H("puts printf putchar fputs fwrite fprintf fflush perror fputc vprintf vfprintf __printf_chk __fprintf_chk", HF { r = Val(ci.w ? ci.w : 32, 0); return true; });
  // ---- maths
  static const char* un[] = {"sqrt", "sin", "cos", "tan", "atan", "asin", "acos", "exp", "log", "log2", "log10", "cbrt", "sinh", "cosh", "tanh", "exp2"};
  for (auto u : un) { string f = u;
    H((f + " " + f + "f").c_str(), [f](State& s, CInst&, vector<Val>& a, Val& r) { r = libm(s, f, a[0], nullptr); return true; }); }
  static const char* bi[] = {"atan2", "pow", "fmod", "hypot"};
  for (auto u : bi) { string f = u;
    H((f + " " + f + "f").c_str(), [f](State& s, CInst&, vector<Val>& a, Val& r) { if (f == "fmod" && !(a[0].isC() && a[1].isC())) r = fop(s, FREM, a[0], a[1]); else r = libm(s, f, a[0], &a[1]); return true; }); }
  static const char* rd[] = {"floor", "ceil", "trunc", "round", "rint", "nearbyint"};
  for (auto u : rd) { string f = u;
    H((f + " " + f + "f").c_str(), [f](State& s, CInst&, vector<Val>& a, Val& r) { r = roundTo(s, a[0], f == "nearbyint" ? "rint" : f.c_str()); return true; }); }
  H("fabs fabsf", HF { r = fabsV(a[0]); return true; });
  H("lround llround lroundf", HF { r = fpToInt(s, roundTo(s, a[0], "round"), 64, true); return true; });
  H("lrint llrint lrintf", HF { r = fpToInt(s, roundTo(s, a[0], "rint"), 64, true); return true; });
  H("fmin fminf", HF { Val c = fcmp(CmpInst::FCMP_OLT, a[0], a[1]); Val n = fcmp(CmpInst::FCMP_UNO, a[1], a[1]); Val x = c.isC() ? (c.lo ? a[0] : a[1]) : mkIte(c.e, a[0], a[1]); r = n.isC() ? (n.lo ? a[0] : x) : mkIte(n.e, a[0], x); return true; });
  H("fmax fmaxf", HF { Val c = fcmp(CmpInst::FCMP_OGT, a[0], a[1]); Val n = fcmp(CmpInst::FCMP_UNO, a[1], a[1]); Val x = c.isC() ? (c.lo ? a[0] : a[1]) : mkIte(c.e, a[0], a[1]); r = n.isC() ? (n.lo ? a[0] : x) : mkIte(n.e, a[0], x); return true; });
  // ---- threads
  H("pthread_self", HF { r = Val(64, 0x1000 + s.cur); return true; });
  H("pthread_create", HF {
    auto it = funcById.find(a[2].lo >> 32);
    if (it == funcById.end()) throw Terminate{"pthread_create target", true};
    int nid = (int)s.th.size(); int me = s.cur;
    Thread t; t.vc = s.t().vc; if ((int)t.vc.size() <= nid) t.vc.resize(nid + 1); t.vc[nid] = 1;
    if ((int)s.t().vc.size() <= me) s.t().vc.resize(me + 1);
    storeScalarC(s, a[0].lo, Val(64, 0x1000 + nid));
    tick(s.t(), me);
    s.th.push_back(t);
    s.cur = nid; pushFrame(s, it->second, {a[3]}); s.top().isThreadRoot = true; s.cur = me;
    r = Val(32, 0); return true; });
  H("pthread_join", HF {
    int j = (int)(a[0].lo - 0x1000);
    if (j < 0 || j >= (int)s.th.size()) throw Violation{"invalid-join", "join of an unknown thread"};
    if (s.th[j].st != TDone) { s.t().st = TJoin; s.t().joinTarget = j; switchAway(s); return false; }
    raceSync(s.t().vc, s.th[j].vc);
    r = Val(32, 0); return true; });
  H("pthread_detach", HF { r = Val(32, 0); return true; });
  H("sched_yield", HF { schedPoint(s); r = Val(32, 0); return true; });
  H("usleep nanosleep sleep", HF { schedPoint(s); r = Val(32, 0); return true; });
  H("pthread_mutex_init pthread_mutex_destroy pthread_cond_init pthread_cond_destroy pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_condattr_init pthread_condattr_destroy pthread_condattr_setclock pthread_attr_init pthread_attr_destroy", HF { r = Val(32, 0); return true; });
  H("pthread_mutex_lock", HF {
    uint64_t m = a[0].lo; objAt(s, m, 40, false, "mutex");
    schedPoint(s);
    MutexInfo& mi = s.mtx[m];
    if (mi.owner == s.cur) {
      int kind = (int)loadScalarC(s, m + 16, 32, false, true).lo;
      if (kind == 1) { mi.count++; r = Val(32, 0); return true; }
      throw Violation{"deadlock", "a thread locks a mutex it already holds"};
    }
    if (mi.owner >= 0) { s.t().st = TLock; s.t().waitAddr = m; switchAway(s); return false; }
    mi.owner = s.cur; mi.count = 1; raceSync(s.t().vc, mi.vc);
    r = Val(32, 0); return true; });
  H("pthread_mutex_trylock", HF {
    uint64_t m = a[0].lo; objAt(s, m, 40, false, "mutex");
    schedPoint(s);
    MutexInfo& mi = s.mtx[m];
    if (mi.owner >= 0) { r = Val(32, 16); return true; }
    mi.owner = s.cur; mi.count = 1; raceSync(s.t().vc, mi.vc);
    r = Val(32, 0); return true; });
  H("pthread_mutex_unlock", HF {
    uint64_t m = a[0].lo; objAt(s, m, 40, false, "mutex");
    MutexInfo& mi = s.mtx[m];
    if (mi.owner != s.cur) throw Violation{"unlock-not-owner", "unlock of a mutex the thread does not hold"};
    if (--mi.count == 0) { mi.owner = -1; mi.vc = s.t().vc; tick(s.t(), s.cur); }
    r = Val(32, 0); return true; });
  auto condWait = [](bool timed) { return [timed](State& s, CInst& ci, vector<Val>& a, Val& r) -> bool {
    uint64_t c = a[0].lo, m = a[1].lo; Thread& t = s.t();
    if (t.aux == 0) {
      objAt(s, c, 48, false, "condition variable"); objAt(s, m, 40, false, "mutex");
      MutexInfo& mi = s.mtx[m];
      if (mi.owner != s.cur) throw Violation{"wait-without-lock", "condition wait without holding the mutex"};
      mi.owner = -1; mi.count = 0; mi.vc = t.vc; tick(t, s.cur);
      t.st = timed ? TCondTimed : TCond; t.waitAddr = c; t.mtxAddr = m; t.aux = 1; t.wake = 0;
      t.atSched = true; s.schedSeq++;
      if (opt.spurious && s.names["spurious@" + std::to_string(s.cur)] < 1) {
        // a spurious wake-up, at most one per thread
        StateP n = cloneState(s); n->names["spurious@" + std::to_string(s.cur)]++;
        Thread& u = n->t(); u.aux = 2; u.st = TLock; u.waitAddr = m; n->sched.push_back({n->schedSeq, 'X', s.cur, s.cur}); switchAway(*n); queueState(std::move(n));
      }
      switchAway(s);
      return false;
    }
    MutexInfo& mi = s.mtx[m];
    if (mi.owner >= 0) { t.st = TLock; t.waitAddr = m; switchAway(s); return false; }
    mi.owner = s.cur; mi.count = 1; raceSync(t.vc, mi.vc);
    int w = t.wake; t.wake = 0; t.aux = 0;
    r = Val(32, w ? 110 : 0); return true; }; };
  H("pthread_cond_wait", condWait(false));
  H("pthread_cond_timedwait pthread_cond_clockwait", condWait(true));
  auto wake = [](State& s, int i) { Thread& t = s.th[i]; t.st = TLock; t.waitAddr = t.mtxAddr; t.aux = 2; t.wake = 0; };
  H("pthread_cond_signal", [wake](State& s, CInst& ci, vector<Val>& a, Val& r) -> bool {
    schedPoint(s); s.schedSeq++;
    vector<int> ws; for (int i = 0; i < (int)s.th.size(); i++) if ((s.th[i].st == TCond || s.th[i].st == TCondTimed) && s.th[i].waitAddr == a[0].lo) ws.push_back(i);
    r = Val(32, 0);
    if (ws.empty()) return true;
    for (size_t k = 1; k < ws.size(); k++) {
      StateP n = cloneState(s); st.forks++;
      n->sched.push_back({n->schedSeq, 'W', s.cur, ws[k]});
      wake(*n, ws[k]);
      Val v(32, 0); finishCall(*n, &v);
      queueState(std::move(n));
    }
    s.sched.push_back({s.schedSeq, 'W', s.cur, ws[0]});
    wake(s, ws[0]);
    return true; });
  H("pthread_cond_broadcast", [wake](State& s, CInst& ci, vector<Val>& a, Val& r) -> bool {
    schedPoint(s);
    for (int i = 0; i < (int)s.th.size(); i++) if ((s.th[i].st == TCond || s.th[i].st == TCondTimed) && s.th[i].waitAddr == a[0].lo) wake(s, i);
    r = Val(32, 0); return true; });
  H("symx_futex_wait", HF {  // wait until *(u32*)a0 != a1
    Val v = loadScalarC(s, a[0].lo, 32, false, true);
    if (v.isC() && a[1].isC() && v.lo == a[1].lo) { s.t().st = TFutex; s.t().waitAddr = a[0].lo; s.t().aux = a[1].lo; switchAway(s); return false; }
    auto& vc = s.syncvc[a[0].lo]; raceSync(s.t().vc, vc);
    return true; });
  H("symx_hw_threads", HF { r = Val(32, 2); return true; });
}
