// ---------------------------------------------------------------- solver
enum Res { UNSAT, SAT, UNK };
struct CacheEnt { Res r; AsgP m; };
static std::unordered_map<string, CacheEnt> qcache;

static void sliceFor(State& s, Z3_ast extra, vector<Z3_ast>& out) {
  vector<Z3_ast> all;
  for (auto p = s.pc.get(); p; p = p->up.get()) all.push_back(p->c);
  if (!extra) { out = all; return; }
  std::unordered_set<int> reach(symsOf(extra).begin(), symsOf(extra).end());
  vector<char> in(all.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < all.size(); i++) if (!in[i]) {
      const vector<int>& ss = symsOf(all[i]);
      bool hit = false;
      for (int x : ss) if (reach.count(x)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (int x : ss) reach.insert(x); }
    }
  }
  for (size_t i = 0; i < all.size(); i++) if (in[i]) out.push_back(all[i]);
}

static Res rawCheck(const vector<Z3_ast>& cs, unsigned timeoutMs, AsgP* outM) {
  bool hasFP = false, hasReal = false, hasBV = false;
  std::set<int> ss;
  for (auto c : cs) for (int x : symsOf(c)) ss.insert(x);
  for (int x : ss) {
    if (syms[x].k == KF) hasFP = true;
    else if (syms[x].k == KR) hasReal = true;
    else hasBV = true;
  }
  // bit-vector symbols may be reinterpreted as floating point
  Z3_solver sol; bool inc = false;
  if (hasReal && !hasBV && !hasFP)
    sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NRA"));
  else if (hasReal) sol = Z3_mk_solver(Z);
  else if (hasFP) sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BVFP"));
  else {
    bool fpOps = false;
    static std::unordered_map<unsigned, bool> memo;
    for (auto c : cs) {
      auto it = memo.find(Z3_get_ast_id(Z, c));
      bool r = false;
      if (it != memo.end()) r = it->second;
      else {
        std::unordered_set<unsigned> seen; vector<Z3_ast> wl{c};
        while (!wl.empty() && !r) {
          Z3_ast a = wl.back(); wl.pop_back();
          if (!seen.insert(Z3_get_ast_id(Z, a)).second) continue;
          if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
          Z3_sort_kind sk = Z3_get_sort_kind(Z, Z3_get_sort(Z, a));
          if (sk == Z3_FLOATING_POINT_SORT || sk == Z3_REAL_SORT || sk == Z3_INT_SORT) r = true;
          Z3_app p = Z3_to_app(Z, a);
          for (unsigned i = 0, n = Z3_get_app_num_args(Z, p); i < n; i++) wl.push_back(Z3_get_app_arg(Z, p, i));
        }
        memo[Z3_get_ast_id(Z, c)] = r;
      }
      fpOps |= r;
    }
    sol = nullptr;
    static int incMode = getenv("SYMX_INC") ? atoi(getenv("SYMX_INC")) : 0;
    static Z3_solver isol = nullptr; static int uses = 0;
    if (!fpOps && incMode) {
      if (!isol || ++uses > 2000) {
        if (isol) Z3_solver_dec_ref(Z, isol);
        uses = 0;
        if (incMode == 1) isol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
        else isol = Z3_mk_simple_solver(Z);
        Z3_solver_inc_ref(Z, isol); }
      sol = isol; inc = true;
    } else
    sol = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, fpOps ? "QF_BVFP" : "QF_BV"));
  }
  Z3_solver_inc_ref(Z, sol);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), timeoutMs);
  Z3_solver_set_params(Z, sol, p);
  Z3_params_dec_ref(Z, p);
  double t0 = nowSec();
  Res r = UNK;
  if (inc) Z3_solver_push(Z, sol);
  for (auto c : cs) Z3_solver_assert(Z, sol, c);
  Z3_lbool b = Z3_solver_check(Z, sol);
  st.queries++;
  if (b == Z3_L_TRUE) {
    r = SAT; st.qSat++;
    if (outM) {
      Z3_model m = Z3_solver_get_model(Z, sol);
      if (m) {
        Z3_model_inc_ref(Z, m);
        auto asg = std::make_shared<Asg>();
        for (int x : ss) {
          Z3_ast v = nullptr;
          if (Z3_model_eval(Z, m, syms[x].e, true, &v) && v) asg->v[x] = keep(v);
        }
        Z3_model_dec_ref(Z, m);
        *outM = asg;
      }
    }
  } else if (b == Z3_L_FALSE) { r = UNSAT; st.qUnsat++; }
  else { st.qUnk++;
    if (opt.verbose) fprintf(stderr, "UNKNOWN query (%s), %zu constraints\n", Z3_solver_get_reason_unknown(Z, sol), cs.size());
    if (getenv("SYMX_DUMP_UNK")) { static int n = 0; std::ofstream f(opt.out + "/unk" + std::to_string(n++) + ".smt2"); f << Z3_solver_to_string(Z, sol) << "(check-sat)\n"; } }
  if (inc) Z3_solver_pop(Z, sol, 1);
  Z3_solver_dec_ref(Z, sol);
  st.solverTime += nowSec() - t0;
  return r;
}

// pc /\ extra (only the constraints connected to extra)
static Res check(State& s, Z3_ast extra, AsgP* outM, unsigned timeoutMs = 0) {
  if (extra == zFalse) return UNSAT;
  vector<Z3_ast> cs; sliceFor(s, extra, cs);
  Z3_ast neg = mkNot(extra);
  for (auto c : cs) if (c == neg) return UNSAT;
  if (!timeoutMs) timeoutMs = opt.solverTimeout;
  vector<unsigned> ids; for (auto c : cs) ids.push_back(Z3_get_ast_id(Z, c));
  ids.push_back(Z3_get_ast_id(Z, extra));
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  string key((char*)ids.data(), ids.size() * sizeof(unsigned));
  auto it = qcache.find(key);
  if (it != qcache.end() && it->second.r != UNK) {
    st.cacheHits++;
    if (outM) *outM = it->second.m;
    return it->second.r;
  }
  cs.push_back(extra);
  AsgP m;
  Res r = rawCheck(cs, timeoutMs, &m);
  if (r != UNK) qcache[key] = {r, m};
  if (outM) *outM = m;
  return r;
}
static AsgP mergeAsg(const AsgP& a, const AsgP& b) {
  if (!a) return b;
  if (!b || b->v.empty()) return a;
  auto r = std::make_shared<Asg>();
  r->v = a->v;
  for (auto& p : b->v) r->v[p.first] = p.second;
  return r;
}
static Z3_ast evalIn(const AsgP& m, Z3_ast e) {
  static AsgP empty = std::make_shared<Asg>();
  const AsgP& a = m ? m : empty;
  Z3_ast v = nullptr;
  if (!Z3_model_eval(Z, a->model(), e, true, &v) || !v) return nullptr;
  return keep(v);
}
static bool evalBool(State& s, Z3_ast c, bool& out) {
  if (!s.modelOk) return false;
  Z3_ast v = evalIn(s.model, c);
  if (!v) return false;
  Z3_lbool b = Z3_get_bool_value(Z, v);
  if (b == Z3_L_UNDEF) return false;
  out = b == Z3_L_TRUE;
  return true;
}
// ---- if-conversion (see symx_step.inc)
struct SpecAbort { const char* why; };
static int specDepth = 0;
static Z3_ast specGuard = nullptr;
static void pushPC(State& s, Z3_ast c) {
  if (c == zTrue) return;
  if (specDepth) throw SpecAbort{"constraint"};
  auto n = std::make_shared<PCNode>(); n->c = c; n->up = s.pc; n->n = ++s.npc;
  s.pc = n;
}
// add a constraint that is known to be consistent with pc; refresh the model
static void addConstraint(State& s, Z3_ast c, const AsgP* m = nullptr) {
  if (c == zTrue) return;
  if (m && *m && s.modelOk) { pushPC(s, c); s.model = mergeAsg(s.model, *m); return; }
  bool v;
  if (evalBool(s, c, v) && v) { pushPC(s, c); return; }
  pushPC(s, c);
  s.modelOk = false;
}
static bool ensureModel(State& s) {  // returns false if pc is unsat
  if (s.modelOk) return true;
  vector<Z3_ast> cs; sliceFor(s, nullptr, cs);
  AsgP m;
  Res r = rawCheck(cs, opt.solverTimeout, &m);
  if (r == UNSAT) return false;
  if (r == SAT) {
    s.model = m;
    // accept only if the model evaluates (algebraic numbers may not)
    bool ok = true, v;
    s.modelOk = true;
    for (auto c : cs) if (!evalBool(s, c, v) || !v) { ok = false; break; }
    s.modelOk = ok;
  }
  return true;
}

static StateP cloneState(State& s) {
  StateP n(new State(s));
  n->id = nextStateId++;
  return n;
}
static void queueState(StateP n) { worklist.push_back(std::move(n)); }

static Z3_ast simp(Z3_ast c) {
  Z3_ast r = keep(Z3_simplify(Z, c));
  return r;
}

// Decide a branch.  Returns the truth value to follow in s.  When both are
// feasible the other side is queued and will re-execute this instruction.
static bool branch(State& s, Z3_ast c, bool* both = nullptr) {
  if (c == zTrue) return true;
  if (c == zFalse) return false;
  unsigned id = Z3_get_ast_id(Z, c);
  Z3_ast nc = mkNot(c);
  unsigned nid = Z3_get_ast_id(Z, nc);
  { int lim = 0;
    for (auto p = s.pc.get(); p && lim < 64; p = p->up.get(), lim++) {
      if (p->c == c) return true;
      if (p->c == nc) return false;
    }
    for (unsigned k : s.known) { if (k == id) return true; if (k == nid) return false; } }
  bool v;
  if (!s.modelOk && !opt.real) ensureModel(s);
  Res rt, rf; AsgP mt, mf;
  if (evalBool(s, c, v)) {
    if (v) { rt = SAT; rf = check(s, nc, &mf); }
    else { rf = SAT; rt = check(s, c, &mt); }
  } else { rt = check(s, c, &mt); rf = check(s, nc, &mf); }
  if (rt == UNSAT && rf == UNSAT) throw Terminate{"infeasible", false};
  if (specDepth && rt != UNSAT && rf != UNSAT) throw SpecAbort{"branch"};
  if (both && rt != UNSAT && rf != UNSAT) { *both = true; return true; }
  if (rt == UNK && rf == UNK) { s.maybe = true; st.undecided++; }
  if (rt == UNSAT) { s.known.push_back(nid); if (s.known.size() > 64) s.known.erase(s.known.begin(), s.known.begin() + 32); return false; }
  if (rf == UNSAT) { s.known.push_back(id); if (s.known.size() > 64) s.known.erase(s.known.begin(), s.known.begin() + 32); return true; }
  st.forks++;
  StateP n = cloneState(s);
  bool modelSide;  // which side does the current model satisfy?
  bool have = evalBool(s, c, modelSide);
  auto add = [&](State& x, Z3_ast cc, Res r, AsgP& m, bool side) {
    if (r == UNK) x.maybe = true;
    if (have && modelSide == side) { pushPC(x, cc); return; }
    if (r == SAT && m && x.modelOk) { pushPC(x, cc); x.model = mergeAsg(x.model, m);
      if (opt.real) { bool vv; if (!evalBool(x, cc, vv) || !vv) x.modelOk = false; }
      return; }
    pushPC(x, cc); x.modelOk = false;
  };
  add(s, c, rt, mt, true);
  add(*n, nc, rf, mf, false);
  queueState(std::move(n));
  return true;
}
static bool branch(State& s, const Val& v) { return v.isC() ? (v.lo & 1) : branch(s, v.e); }

static u128 concretize128(State& s, const Val& v) {
  if (v.isC()) return v.c();
  if (v.k == KR) throw Terminate{"concretising a real-mode value", true};
  Z3_ast e = asBV(v);
  if (specDepth) throw SpecAbort{"concretise"};
  for (int i = 0; i < 100000; i++) {
    if (!s.modelOk && !ensureModel(s)) throw Terminate{"infeasible", false};
    Z3_ast m = nullptr;
    if (s.modelOk) m = evalIn(s.model, e);
    else { // take a slice model
      AsgP a; if (check(s, keep(Z3_mk_eq(Z, e, e)), &a) == UNSAT) throw Terminate{"infeasible", false};
      m = evalIn(a, e);
    }
    if (!m) throw Terminate{"no model value", true};
    Val mv = mkB(v.w, m);
    if (!mv.isC()) throw Terminate{"non-constant model value", true};
    if (branch(s, icmp(EQ, v, mv))) return mv.c();
  }
  throw Terminate{"concretise loop", true};
}
static uint64_t concretize(State& s, const Val& v) { return v.isC() ? v.lo : (uint64_t)concretize128(s, v); }

// ---------------------------------------------------------------- candidates
// Over-approximation of the set of values an expression can take (small sets only).
static bool candidates(Z3_ast e, std::set<uint64_t>& out, unsigned lim,
                       std::unordered_map<unsigned, std::pair<bool, std::set<uint64_t>>>& memo) {
  unsigned id = Z3_get_ast_id(Z, e);
  auto it = memo.find(id);
  if (it != memo.end()) { out = it->second.second; return it->second.first; }
  bool ok = false; std::set<uint64_t> r;
  Z3_sort so = Z3_get_sort(Z, e);
  if (Z3_get_sort_kind(Z, so) != Z3_BV_SORT) { memo[id] = {false, r}; return false; }
  unsigned w = Z3_get_bv_sort_size(Z, so);
  uint64_t mask = w >= 64 ? ~0ull : (1ull << w) - 1;
  if (w > 64) ok = false;
  else if (isNum(e)) { uint64_t v; Z3_get_numeral_uint64(Z, e, &v); r.insert(v); ok = true; }
  else if (Z3_get_ast_kind(Z, e) == Z3_APP_AST) {
    Z3_app p = Z3_to_app(Z, e); unsigned n = Z3_get_app_num_args(Z, p);
    Z3_decl_kind k = dk(e);
    auto sub = [&](unsigned i, std::set<uint64_t>& o) { return candidates(argOf(e, i), o, lim, memo); };
    auto fold = [&](std::function<uint64_t(uint64_t, uint64_t)> f) {
      std::set<uint64_t> acc;
      if (!sub(0, acc)) return false;
      for (unsigned i = 1; i < n; i++) {
        std::set<uint64_t> o, nx;
        if (!sub(i, o)) return false;
        if (acc.size() * o.size() > 4 * lim) return false;
        for (auto a : acc) for (auto b : o) nx.insert(f(a, b) & mask);
        acc.swap(nx);
        if (acc.size() > lim) return false;
      }
      r.swap(acc); return true;
    };
    switch (k) {
      case Z3_OP_ITE: { std::set<uint64_t> b; ok = sub(1, r) && sub(2, b); r.insert(b.begin(), b.end()); break; }
      case Z3_OP_BADD: ok = fold([](uint64_t a, uint64_t b) { return a + b; }); break;
      case Z3_OP_BSUB: ok = fold([](uint64_t a, uint64_t b) { return a - b; }); break;
      case Z3_OP_BMUL: ok = fold([](uint64_t a, uint64_t b) { return a * b; }); break;
      case Z3_OP_BOR: ok = fold([](uint64_t a, uint64_t b) { return a | b; }); break;
      case Z3_OP_BXOR: ok = fold([](uint64_t a, uint64_t b) { return a ^ b; }); break;
      case Z3_OP_BSHL: ok = fold([](uint64_t a, uint64_t b) { return b > 63 ? 0 : a << b; }); break;
      case Z3_OP_BLSHR: ok = fold([](uint64_t a, uint64_t b) { return b > 63 ? 0 : a >> b; }); break;
      case Z3_OP_BUDIV: case Z3_OP_BUDIV_I: ok = fold([](uint64_t a, uint64_t b) { return b ? a / b : ~0ull; }); break;
      case Z3_OP_BUREM: case Z3_OP_BUREM_I: ok = fold([](uint64_t a, uint64_t b) { return b ? a % b : a; }); break;
      case Z3_OP_BAND: {
        std::set<uint64_t> a, b; bool ba = sub(0, a), bb = n == 2 && sub(1, b);
        if (n == 2 && ba && bb) ok = fold([](uint64_t x, uint64_t y) { return x & y; });
        else if (n == 2 && (ba || bb)) {
          std::set<uint64_t>& m = ba ? a : b;
          if (m.size() == 1 && *m.begin() < lim) { for (uint64_t v = 0; v <= *m.begin(); v++) if ((v & *m.begin()) == v) r.insert(v); ok = true; }
        }
        break; }
      case Z3_OP_ZERO_EXT: ok = sub(0, r); break;
      case Z3_OP_SIGN_EXT: { std::set<uint64_t> a; ok = sub(0, a);
        unsigned sw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, argOf(e, 0)));
        for (auto v : a) { uint64_t x = v; if (sw < 64 && (v >> (sw - 1)) & 1) x |= ~((1ull << sw) - 1); r.insert(x & mask); } break; }
      case Z3_OP_EXTRACT: { std::set<uint64_t> a; ok = sub(0, a);
        Z3_func_decl d = Z3_get_app_decl(Z, p); int l = Z3_get_decl_int_parameter(Z, d, 1);
        for (auto v : a) r.insert((v >> l) & mask);
        if (!ok && w <= 8) { r.clear(); for (uint64_t v = 0; v <= mask; v++) r.insert(v); ok = true; } break; }
      case Z3_OP_CONCAT: {
        ok = true; std::set<uint64_t> acc{0};
        for (unsigned i = 0; i < n && ok; i++) {
          std::set<uint64_t> o, nx; ok = sub(i, o); if (!ok) break;
          unsigned sw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, argOf(e, i)));
          if (acc.size() * o.size() > 4 * lim) { ok = false; break; }
          for (auto a : acc) for (auto b : o) nx.insert(((a << sw) | b) & mask);
          acc.swap(nx);
        }
        r.swap(acc); break; }
      case Z3_OP_UNINTERPRETED: {
        auto si = symByAst.find(id);
        if (si != symByAst.end() && syms[si->second].ranged && syms[si->second].hi - syms[si->second].lo < (int64_t)lim) {
          for (int64_t v = syms[si->second].lo; v <= syms[si->second].hi; v++) r.insert((uint64_t)v & mask);
          ok = true;
        } else if (w <= 8) { for (uint64_t v = 0; v <= mask; v++) r.insert(v); ok = true; }
        break; }
      default: break;
    }
  }
  if (r.size() > lim) ok = false;
  if (!ok) r.clear();
  memo[id] = {ok, r};
  out = r;
  return ok;
}

// ---------------------------------------------------------------- violations
struct Found { string kind, label, where, file; };
static vector<Found> found;
static std::map<string, int> foundCount;
static string jsonEsc(const string& s) {
  string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r;
}
static string locOf(const Instruction* I) {
  if (I) if (const DebugLoc& d = I->getDebugLoc()) {
    auto* sc = cast<DIScope>(d.getScope());
    return (sc->getFilename() + ":" + Twine(d.getLine())).str();
  }
  return "?";
}
static string backtrace(State& s, unsigned max = 12) {
  string r;
  auto& stk = s.t().stack;
  for (size_t i = stk.size(); i-- > 0 && max; max--) {
    Frame& f = *stk[i];
    if (f.pc < (int)f.f->code.size()) r += f.f->shortName + " (" + locOf(f.f->code[f.pc].I) + ")\n";
  }
  return r;
}
static string whereRepo(State& s) {
  auto& stk = s.t().stack;
  string best;
  for (size_t i = stk.size(); i-- > 0;) {
    Frame& f = *stk[i];
    if (f.f->repo && f.pc < (int)f.f->code.size()) return f.f->shortName + " (" + locOf(f.f->code[f.pc].I) + ")";
  }
  if (!stk.empty()) { Frame& f = *stk.back(); if (f.pc < (int)f.f->code.size()) return f.f->shortName + " (" + locOf(f.f->code[f.pc].I) + ")"; }
  return "?";
}
static double ratToDouble(Z3_ast v) {
  Z3_ast a = v;
  if (Z3_is_algebraic_number(Z, v)) a = keep(Z3_get_algebraic_number_lower(Z, v, 20));
  return Z3_get_numeral_double(Z, a);
}
static string symValue(const Sym& sy, Z3_ast v) {
  char buf[64];
  if (sy.k == KR) { snprintf(buf, sizeof buf, "%016llx", (unsigned long long)dToBits(v ? ratToDouble(v) : 0.0)); return buf; }
  if (!v) return "0";
  if (sy.k == KF) {
    if (Z3_fpa_is_numeral_nan(Z, v)) return sy.w == 32 ? "7fc00000" : "7ff8000000000000";
    Z3_ast b = keep(Z3_simplify(Z, keep(Z3_mk_fpa_to_ieee_bv(Z, v))));
    uint64_t x = 0; Z3_get_numeral_uint64(Z, b, &x);
    snprintf(buf, sizeof buf, "%llx", (unsigned long long)x); return buf;
  }
  if (sy.w == 1) return Z3_get_bool_value(Z, v) == Z3_L_TRUE ? "1" : "0";
  Val m = mkB(sy.w, v);
  snprintf(buf, sizeof buf, "%llx", (unsigned long long)m.lo);
  return buf;
}
static void writeInputs(State& s, const string& file, const string& kind, const string& label, const AsgP& m) {
  std::ofstream f(file);
  f << "# kind: " << kind << "\n# label: " << label << "\n# where: " << whereRepo(s) << "\n";
  { std::istringstream bt(backtrace(s, 25)); string l; while (std::getline(bt, l)) f << "#   " << l << "\n"; }
  for (auto& e : s.events) f << "# event: " << e << "\n";
  for (auto& p : opt.params) f << "param " << p.first << " " << p.second << "\n";
  if (opt.real) f << "param symx_real 1\n";
  for (int x : s.inputs) {
    Z3_ast v = nullptr;
    if (m) { auto it = m->v.find(x); if (it != m->v.end()) v = it->second; }
    if (!v && syms[x].ranged && syms[x].lo > 0) { f << "in " << syms[x].name << " " << std::hex << syms[x].lo << std::dec << "\n"; continue; }
    f << "in " << syms[x].name << " " << symValue(syms[x], v) << "\n";
  }
  for (auto& p : s.sched) f << "sched " << p.seq << " " << p.kind << " " << p.a << " " << p.b << "\n";
}
// a concrete input that drives one explored path, for replay on the real code
static void witness(State& s) {
  if (st.witnesses >= opt.witnesses || s.maybe) return;
  if (!s.modelOk) return;
  writeInputs(s, opt.out + "/wit" + std::to_string(st.witnesses++) + ".txt", "witness", "path completes", s.model);
}
// report: extra is the negated assertion (or null); returns false if the path
// turned out to be infeasible.
static bool numericModel(State& s, const vector<Z3_ast>& cs, const AsgP& base, AsgP& out, Z3_ast large = nullptr);
static bool report(State& s, const string& kind, const string& label, Z3_ast extra, const AsgP& hint, Z3_ast large = nullptr) {
  string key = kind + "|" + label;
  if (foundCount[key] >= 2 || (unsigned)found.size() >= opt.maxViolations * 4) { foundCount[key]++; return true; }
  AsgP m;
  vector<Z3_ast> cs;
  sliceFor(s, nullptr, cs);
  if (extra) cs.push_back(extra);
  bool ok = false;
  if (s.modelOk) {
    m = mergeAsg(s.model, hint); ok = true;
    for (auto c : cs) { Z3_ast v = evalIn(m, c); if (!v || Z3_get_bool_value(Z, v) != Z3_L_TRUE) { ok = false; break; } }
  }
  if (opt.real && numericModel(s, cs, hint ? mergeAsg(s.model, hint) : s.model, m, large)) ok = true;
  if (!ok) {
    Res r = rawCheck(cs, opt.assertTimeout, &m);
    if (r == UNSAT) return false;
    if (r == UNK) { st.undecided++; st.notes.insert("undecided: " + key); if (!hint) return true; m = hint; }
  }
  foundCount[key]++;
  string file = opt.out + "/cex" + std::to_string(found.size()) + ".txt";
  writeInputs(s, file, kind, label, m);
  found.push_back({kind, label, whereRepo(s), file});
  if (opt.verbose) fprintf(stderr, "FOUND %s %s at %s\n%s", kind.c_str(), label.c_str(), whereRepo(s).c_str(), backtrace(s).c_str());
  return true;
}
