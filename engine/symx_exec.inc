// ---------------------------------------------------------------- lowering
static bool scalarWidth(Type* t, unsigned& w) {
  if (t->isIntegerTy()) { w = t->getIntegerBitWidth(); return w <= 128; }
  if (t->isPointerTy()) { w = 64; return true; }
  if (t->isFloatTy()) { w = 32; return true; }
  if (t->isDoubleTy()) { w = 64; return true; }
  return false;
}
static Val zeroOf(Type* t) {
  unsigned w;
  if (scalarWidth(t, w)) return Val(w, 0);
  Agg* g = new Agg;
  if (auto* sv = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < sv->getNumElements(); i++) g->v.push_back(zeroOf(sv->getElementType()));
  else if (auto* at = dyn_cast<ArrayType>(t)) for (unsigned i = 0; i < at->getNumElements(); i++) g->v.push_back(zeroOf(at->getElementType()));
  else if (auto* sx = dyn_cast<StructType>(t)) for (unsigned i = 0; i < sx->getNumElements(); i++) g->v.push_back(zeroOf(sx->getElementType(i)));
  else { delete g; 
    if (t->isX86_FP80Ty() || t->isFP128Ty()) return Val(64, 0);
    string s; raw_string_ostream os(s); t->print(os); throw Terminate{"unsupported type " + s, true}; }
  return Val::agg(g);
}
static Val evalConst(const Constant* c);
static Val evalConstExpr(const ConstantExpr* ce) {
  switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto* g = cast<GEPOperator>(ce);
      Val b = evalConst(cast<Constant>(g->getPointerOperand()));
      APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) throw Terminate{"const gep", true};
      return Val(64, b.lo + off.getZExtValue());
    }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
      Val v = evalConst(ce->getOperand(0)); unsigned w = 64;
      if (scalarWidth(ce->getType(), w)) return Val::c128(w, v.c());
      return v;
    }
    case Instruction::Trunc: { unsigned w; scalarWidth(ce->getType(), w); return extractV(evalConst(ce->getOperand(0)), w - 1, 0); }
    case Instruction::Add: return binop(ADD, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
    case Instruction::Sub: return binop(SUB, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
    case Instruction::Mul: return binop(MUL, evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
    case Instruction::ICmp: {
      Val a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return icmp(EQ, a, b); case CmpInst::ICMP_NE: return icmp(NE, a, b); case CmpInst::ICMP_ULT: return icmp(ULT, a, b); case CmpInst::ICMP_UGT: return icmp(UGT, a, b); default: break; }
      break;
    }
    default: break;
  }
  throw Terminate{string("unsupported constant expression ") + ce->getOpcodeName(), true};
}
static uint64_t addrOfGlobal(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) return evalConst(ga->getAliasee()).lo;
  auto it = globalAddr.find(g);
  if (it == globalAddr.end()) throw Terminate{"no address for global " + g->getName().str(), true};
  return it->second;
}
static Val evalConst(const Constant* c) {
  unsigned w;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    w = ci->getBitWidth();
    if (w > 128) throw Terminate{"integer wider than 128 bits", true};
    if (w <= 64) return Val(w, ci->getZExtValue());
    const APInt& a = ci->getValue();
    return Val::c128(w, ((u128)a.getRawData()[1] << 64) | a.getRawData()[0]);
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (cf->getType()->isFloatTy() || cf->getType()->isDoubleTy()) {
      APInt a = cf->getValueAPF().bitcastToAPInt();
      return Val(a.getBitWidth(), a.getZExtValue());
    }
    APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return Val(64, f.bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return Val(64, 0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto* g = dyn_cast<GlobalValue>(c)) return Val(64, addrOfGlobal(g));
  if (auto* ce = dyn_cast<ConstantExpr>(c)) return evalConstExpr(ce);
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    Agg* g = new Agg;
    for (unsigned i = 0; i < cd->getNumElements(); i++) g->v.push_back(evalConst(cd->getElementAsConstant(i)));
    return Val::agg(g);
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    Agg* g = new Agg;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) g->v.push_back(evalConst(ca->getOperand(i)));
    return Val::agg(g);
  }
  throw Terminate{"unsupported constant", true};
}

static string demangleShort(const string& n);
static std::unordered_map<const Function*, std::unique_ptr<CFunc>> cfuncs;
static std::unordered_map<string, int> handlerIdx;
struct HCtx;
typedef std::function<bool(State&, CInst&, vector<Val>&, Val&)> Handler;
static vector<Handler> handlers;
static vector<string> handlerNames;

static CFunc* lower(Function* F) {
  auto it = cfuncs.find(F);
  if (it != cfuncs.end()) return it->second.get();
  auto cf = std::make_unique<CFunc>();
  cf->F = F;
  cf->shortName = demangleShort(F->getName().str());
  if (auto* sp = F->getSubprogram()) {
    string path = sp->getFilename().str();
    if (!path.empty() && path[0] != '/') path = sp->getDirectory().str() + "/" + path;
    cf->repo = path.compare(0, opt.repo.size(), opt.repo) == 0;
  }
  for (auto& a : F->args()) cf->regIdx[&a] = cf->nregs++;
  int bi = 0;
  for (auto& bb : *F) { cf->bbIdx[&bb] = bi++; for (auto& I : bb) if (!I.getType()->isVoidTy()) cf->regIdx[&I] = cf->nregs++; }
  auto opnd = [&](Value* v) {
    Opnd o;
    if (auto* c = dyn_cast<Constant>(v)) { try { o.c = evalConst(c); } catch (Terminate&) { o.c = Val(64, 0); } }
    else { auto r = cf->regIdx.find(v); o.reg = r == cf->regIdx.end() ? -2 : r->second; }
    return o;
  };
  for (auto& bb : *F) {
    CBB cb; cb.start = (int)cf->code.size();
    for (auto& I : bb) {
      if (auto* phi = dyn_cast<PHINode>(&I)) {
        PhiE pe; pe.dst = cf->regIdx[phi]; pe.ptr = phi->getType()->isPointerTy();
        for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) pe.in.push_back({cf->bbIdx[phi->getIncomingBlock(i)], opnd(phi->getIncomingValue(i))});
        cb.phis.push_back(pe);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      CInst ci; ci.I = &I; ci.op = I.getOpcode(); ci.ty = I.getType();
      if (!I.getType()->isVoidTy()) ci.dst = cf->regIdx[&I];
      scalarWidth(I.getType(), ci.w);
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        ci.ops.push_back(opnd(g->getPointerOperand()));
        for (gep_type_iterator ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
          Value* ix = ti.getOperand();
          if (StructType* stt = ti.getStructTypeOrNull()) ci.goff += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            int64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
            if (auto* k = dyn_cast<ConstantInt>(ix)) ci.goff += k->getSExtValue() * sz;
            else ci.gidx.push_back({opnd(ix), sz});
          }
        }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { ci.ops.push_back(opnd(br->getCondition())); ci.bb[0] = cf->bbIdx[br->getSuccessor(0)]; ci.bb[1] = cf->bbIdx[br->getSuccessor(1)]; }
        else ci.bb[0] = cf->bbIdx[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        ci.ops.push_back(opnd(sw->getCondition()));
        for (auto cs : sw->cases()) ci.cases.push_back({evalConst(cs.getCaseValue()), cf->bbIdx[cs.getCaseSuccessor()]});
        ci.bb[0] = cf->bbIdx[sw->getDefaultDest()];
      } else if (auto* cb2 = dyn_cast<CallBase>(&I)) {
        for (unsigned i = 0; i < cb2->arg_size(); i++) {
          Value* a = cb2->getArgOperand(i);
          if (a->getType()->isMetadataTy()) { ci.ops.push_back(Opnd()); continue; }
          ci.ops.push_back(opnd(a));
        }
        Value* cv = cb2->getCalledOperand()->stripPointerCasts();
        if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        if (auto* fn = dyn_cast<Function>(cv)) {
          ci.callee = fn; ci.iid = fn->getIntrinsicID();
          auto h = handlerIdx.find(fn->getName().str());
          if (h != handlerIdx.end()) ci.handler = h->second;
        } else if (!isa<InlineAsm>(cv)) ci.ops.push_back(opnd(cv));  // last operand: target
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { ci.bb[0] = cf->bbIdx[inv->getNormalDest()]; ci.bb[1] = cf->bbIdx[inv->getUnwindDest()]; }
        if (ci.iid == Intrinsic::lifetime_start || ci.iid == Intrinsic::lifetime_end || ci.iid == Intrinsic::assume ||
            ci.iid == Intrinsic::experimental_noalias_scope_decl || ci.iid == Intrinsic::invariant_start || ci.iid == Intrinsic::invariant_end ||
            ci.iid == Intrinsic::prefetch || ci.iid == Intrinsic::sideeffect || ci.iid == Intrinsic::donothing) { if (I.getType()->isVoidTy() && !isa<InvokeInst>(&I)) continue; }
      } else {
        for (auto& u : I.operands()) { if (isa<BasicBlock>(u)) continue; ci.ops.push_back(opnd(u)); }
        if (auto* c = dyn_cast<CmpInst>(&I)) ci.pred = c->getPredicate();
      }
      cf->code.push_back(std::move(ci));
    }
    cf->bbs.push_back(std::move(cb));
  }
  if (opt.ifconv) {
    // where the two sides of a branch meet again, not counting ways that end
    // in an abort or an exception
    size_t n = F->size(), w = (n + 63) / 64, i = 0;
    vector<vector<int>> suc(n); vector<char> live(n, 0), isRet(n, 0);
    for (auto& bb : *F) { for (auto* x : successors(&bb)) suc[i].push_back(cf->bbIdx[x]); isRet[i] = live[i] = isa<ReturnInst>(bb.getTerminator()); i++; }
    for (bool ch = true; ch;) { ch = false; for (size_t b = n; b-- > 0;) if (!live[b]) for (int x : suc[b]) if (live[x]) { live[b] = 1; ch = true; break; } }
    vector<vector<uint64_t>> pd(n, vector<uint64_t>(w, ~0ull));
    auto only = [&](size_t b, vector<uint64_t>& v) { v.assign(w, 0); v[b / 64] = 1ull << (b % 64); };
    for (size_t b = 0; b < n; b++) if (isRet[b]) only(b, pd[b]);
    for (bool ch = true; ch;) { ch = false;
      for (size_t b = n; b-- > 0;) { if (!live[b] || isRet[b]) continue;
        vector<uint64_t> v(w, ~0ull); for (int x : suc[b]) if (live[x]) for (size_t k = 0; k < w; k++) v[k] &= pd[x][k];
        v[b / 64] |= 1ull << (b % 64);
        if (v != pd[b]) { pd[b] = v; ch = true; } } }
    auto cnt = [&](size_t b) { int c = 0; for (auto x : pd[b]) c += __builtin_popcountll(x); return c; };
    vector<int> sz(n); for (size_t b = 0; b < n; b++) sz[b] = cnt(b);
    for (size_t b = 0; b < n; b++) { int best = -1;
      if (live[b]) for (size_t k = 0; k < n; k++) if (k != b && live[k] && (pd[b][k / 64] >> (k % 64) & 1) && (best < 0 || sz[k] > sz[best])) best = (int)k;
      cf->ipdom.push_back(best); }
    vector<BitVector> in(n, BitVector(cf->nregs)), def(n, BitVector(cf->nregs)), use(n, BitVector(cf->nregs)), phiUse(n, BitVector(cf->nregs));
    i = 0;
    for (auto& bb : *F) {
      for (auto& I : bb) {
        if (auto* ph = dyn_cast<PHINode>(&I)) {
          for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { auto it = cf->regIdx.find(ph->getIncomingValue(k)); if (it != cf->regIdx.end()) phiUse[cf->bbIdx[ph->getIncomingBlock(k)]].set(it->second); }
        } else for (auto& u : I.operands()) { auto it = cf->regIdx.find(u.get()); if (it != cf->regIdx.end() && !def[i].test(it->second)) use[i].set(it->second); }
        auto it = cf->regIdx.find(&I); if (it != cf->regIdx.end()) def[i].set(it->second);
      }
      i++;
    }
    for (bool ch = true; ch;) { ch = false;
      for (size_t b = n; b-- > 0;) {
        BitVector v = phiUse[b]; for (int x : suc[b]) v |= in[x];
        v.reset(def[b]); v |= use[b];
        if (v != in[b]) { in[b] = v; ch = true; } } }
    cf->liveIn.resize(n);
    for (size_t b = 0; b < n; b++) for (int q : in[b].set_bits()) cf->liveIn[b].push_back(q);
  }
  CFunc* r = cf.get();
  cfuncs[F] = std::move(cf);
  return r;
}

#include <cxxabi.h>
static string demangleShort(const string& n) {
  int stt = 0; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &stt);
  string r = d ? d : n; free(d);
  // drop argument list and template clutter
  string o; int depth = 0;
  for (size_t i = 0; i < r.size(); i++) {
    char c = r[i];
    if (c == '<' && !(i >= 8 && r.compare(i - 8, 8, "operator") == 0)) { depth++; continue; }
    if (c == '>' && depth > 0) { depth--; continue; }
    if (depth) continue;
    if (c == '(' && i > 0) { if (r.compare(i, 21, "(anonymous namespace)") == 0) { o += "(anon)"; i += 20; continue; } break; }
    o += c;
  }
  size_t sp = o.rfind(' ');
  if (sp != string::npos && o.find("operator") == string::npos) o = o.substr(sp + 1);
  return o;
}

// ---------------------------------------------------------------- races
static void raceSync(vector<uint32_t>& a, const vector<uint32_t>& b) {
  if (a.size() < b.size()) a.resize(b.size());
  for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
static uint32_t clk(const vector<uint32_t>& v, int t) { return t < (int)v.size() ? v[t] : 0; }
static void tick(Thread& t, int id) { if ((int)t.vc.size() <= id) t.vc.resize(id + 1); t.vc[id]++; }
static void raceAccess(State& s, uint64_t addr, unsigned n, bool wr) {
  Thread& t = s.t();
  for (unsigned i = 0; i < n; i++) {
    RaceCell& c = s.races[addr + i];
    if (c.wTid >= 0 && c.wTid != s.cur && c.wClk > clk(t.vc, c.wTid)) throw Violation{"data-race", wr ? "write-write" : "read after unsynchronised write"};
    if (wr) {
      for (auto& r : c.rd) if (r.first != s.cur && r.second > clk(t.vc, r.first)) throw Violation{"data-race", "write after unsynchronised read"};
      c.rd.clear(); c.wTid = s.cur; c.wClk = clk(t.vc, s.cur);
    } else c.rd[s.cur] = clk(t.vc, s.cur);
  }
}
static bool g_volatile = false;
static bool raceOn(State& s) {
  if (g_volatile) return false; return opt.races && s.th.size() > 1; }

// ---------------------------------------------------------------- memory access
static Obj* objAt(State& s, uint64_t addr, unsigned n, bool wr, const char* what) {
  uint32_t id = (uint32_t)(addr >> 32);
  uint64_t off = (addr & 0xffffffffull) - BASE;
  Obj* o = s.mem.get(id);
  if (!o || id == 0) {
    char b[128]; snprintf(b, sizeof b, "%s of %u bytes at invalid address (null or wild pointer, %llx)", what, n, (unsigned long long)addr);
    throw Violation{addr < 4096 ? "null-dereference" : "invalid-access", b};
  }
  if (o->freed) throw Violation{"use-after-free", string(what) + (o->kind == OStack ? " of dead stack object" : " of freed memory")};
  if (off > o->size || (uint64_t)off + n > o->size || off > (1u << 31)) {
    char b[160]; snprintf(b, sizeof b, "%s of %u bytes at offset %lld of an object of %u bytes", what, n, (long long)(int32_t)(uint32_t)off, o->size);
    throw Violation{"out-of-bounds", b};
  }
  if (wr && o->kind == OConst) throw Violation{"write-to-const", "write to constant memory"};
  if (o->kind == OFunc) throw Violation{"invalid-access", "data access to a function"};
  if (o->kind == OExtern) throw Terminate{"access to external global " + gvNameByAddr[addrOf(id)], true};
  return o;
}
static Val byteOf(const SymB& b) {
  const Val& v = *b.v;
  return extractV(v, b.off * 8 + 7, b.off * 8);
}
static int uninitCount = 0;
static Val freshAux(State& s, const char* base, Kind k, unsigned w) {
  string n = string("_") + base + "#" + std::to_string(s.names[base]++);
  int id = getSym(n, k, w); syms[id].aux = true;
  return Val::expr(k, w, syms[id].e);
}
static Val loadScalarC(State& s, uint64_t addr, unsigned w, bool isFP, bool noRace = false) {
  unsigned n = (w + 7) / 8;
  Obj* o = objAt(s, addr, n, false, "read");
  uint64_t off = (addr & 0xffffffffull) - BASE;
  if (!noRace && raceOn(s) && o->kind != OConst) raceAccess(s, addr, n, false);
  bool conc = o->sh.empty();
  if (!conc) { conc = true; for (unsigned i = 0; i < n; i++) if (o->sh[off + i].v) { conc = false; break; } }
  if (conc) {
    u128 v = 0; for (unsigned i = n; i-- > 0;) v = (v << 8) | o->d[off + i];
    return Val::c128(w, v);
  }
  const SymB& b0 = o->sh[off];
  if (b0.v && b0.v != UNINIT && b0.off == 0 && b0.v->w == n * 8 ) {
    bool all = true;
    for (unsigned i = 1; i < n; i++) if (o->sh[off + i].v != b0.v || o->sh[off + i].off != i) { all = false; break; }
    if (all) { if (w < n * 8) return extractV(*b0.v, w - 1, 0); return *b0.v; }
  }
  // materialise uninitialised bytes
  bool anyU = false, allU = true;
  for (unsigned i = 0; i < n; i++) { if (o->sh[off + i].v == UNINIT) anyU = true; else allU = false; }
  if (anyU) {
    Obj* m = s.mem.mut((uint32_t)(addr >> 32));
    st.notes.insert("uninitialised memory read: " + whereRepo(s));
    if (allU && (n == 8 || n == 4 || n == 2 || n == 1)) {
      Kind k = isFP ? (opt.real ? KR : KF) : KB;
      Val v = freshAux(s, "uninit", k, n * 8);
      const Val* pv = new Val(v);
      for (unsigned i = 0; i < n; i++) m->sh[off + i] = {pv, (uint8_t)i};
      if (w < n * 8) return extractV(v, w - 1, 0);
      return v;
    }
    for (unsigned i = 0; i < n; i++) if (m->sh[off + i].v == UNINIT) {
      const Val* pv = new Val(freshAux(s, "uninit", KB, 8));
      m->sh[off + i] = {pv, 0};
    }
    o = m;
  }
  // group runs of the same source
  Val acc; bool first = true;
  for (unsigned i = 0; i < n;) {
    Val part;
    const SymB& b = o->sh[off + i];
    unsigned len = 1;
    if (!b.v) {
      u128 v = o->d[off + i]; 
      while (i + len < n && !o->sh[off + i + len].v) { v |= (u128)o->d[off + i + len] << (8 * len); len++; }
      part = Val::c128(8 * len, v);
    } else {
      while (i + len < n && o->sh[off + i + len].v == b.v && o->sh[off + i + len].off == b.off + len) len++;
      part = extractV(*b.v, (b.off + len) * 8 - 1, b.off * 8);
    }
    acc = first ? part : concatV(part, acc);
    first = false; i += len;
  }
  if (w < acc.w) return extractV(acc, w - 1, 0);
  return acc;
}
static uint32_t specFirstNew = 0;
static void storeScalarC(State& s, uint64_t addr, const Val& v0, bool noRace = false) {
  Val v = v0;
  if (v.w & 7) v = zext(v, (v.w + 7) & ~7u);
  unsigned n = v.w / 8;
  Obj* o = objAt(s, addr, n, true, "write");
  uint64_t off = (addr & 0xffffffffull) - BASE;
  if (!noRace && raceOn(s)) raceAccess(s, addr, n, true);
  if (specDepth && (addr >> 32) < specFirstNew) {  // object that existed before the speculation: store under the guard
    bool fresh = !o->sh.empty();
    if (fresh) for (unsigned i = 0; i < n; i++) if (o->sh[off + i].v != UNINIT) { fresh = false; break; }
    if (!fresh) {
      if (!o->sh.empty()) for (unsigned i = 0; i < n; i++) if (o->sh[off + i].v == UNINIT) throw SpecAbort{"uninit"};
      Val old = loadScalarC(s, addr, n * 8, v.k == KF || v.k == KR, true);
      if (!(v.isC() && old.isC() && v.c() == old.c())) {
        if (v.isC() && v.lo >= (1ull << 32) + BASE && old.isC() && old.lo >= (1ull << 32) + BASE && n == 8) throw SpecAbort{"pointer store"};
        v = mkIte(specGuard, v, old);
      }
      o = objAt(s, addr, n, true, "write");
    }
  }
  o = s.mem.mut((uint32_t)(addr >> 32));
  if (v.isC()) {
    u128 x = v.c();
    for (unsigned i = 0; i < n; i++, x >>= 8) o->d[off + i] = (uint8_t)x;
    if (!o->sh.empty()) for (unsigned i = 0; i < n; i++) o->sh[off + i].v = nullptr;
  } else {
    if (o->sh.empty()) o->sh.assign(o->size, SymB{nullptr, 0});
    const Val* p = new Val(v);
    for (unsigned i = 0; i < n; i++) o->sh[off + i] = {p, (uint8_t)i};
  }
}
static bool validAccess(State& s, uint64_t addr, unsigned n, bool wr) {
  uint32_t id = (uint32_t)(addr >> 32); uint64_t off = (addr & 0xffffffffull) - BASE;
  Obj* o = s.mem.get(id);
  return o && id && !o->freed && off <= o->size && off + n <= o->size && off < (1u << 31) && o->kind != OFunc && !(wr && o->kind == OConst);
}
// Resolve a symbolic address to a list of concrete candidate addresses, all
// valid; throws / forks for invalid ones.
static vector<uint64_t> resolve(State& s, const Val& a, unsigned n, bool wr) {
  vector<uint64_t> r;
  if (a.isC()) { r.push_back(a.lo); return r; }
  std::set<uint64_t> cs; std::unordered_map<unsigned, std::pair<bool, std::set<uint64_t>>> memo;
  Z3_ast e = a.e;
  bool have = candidates(e, cs, 1100, memo);
  if (!have) { e = simp(a.e); std::unordered_map<unsigned, std::pair<bool, std::set<uint64_t>>> memo2; cs.clear(); have = candidates(e, cs, 1100, memo2); }
  if (have) {
    Z3_ast okc = zFalse; bool bad = false;
    vector<Z3_ast> eqs;
    for (auto c : cs) {
      if (validAccess(s, c, n, wr)) { r.push_back(c); eqs.push_back(keep(Z3_mk_eq(Z, a.e, numBV(64, c)))); }
      else bad = true;
    }
    if (bad) {
      okc = eqs.empty() ? zFalse : eqs.size() == 1 ? eqs[0] : keep(Z3_mk_or(Z, eqs.size(), eqs.data()));
      if (!branch(s, okc)) {
        uint64_t bad1 = concretize(s, a);
        objAt(s, bad1, n, wr, wr ? "write" : "read");
        throw Violation{"out-of-bounds", "symbolic address"};
      }
    }
    return r;
  }
  // model-driven resolution
  if (!ensureModel(s)) throw Terminate{"infeasible", false};
  Z3_ast mv = s.modelOk ? evalIn(s.model, a.e) : nullptr;
  if (!mv) { r.push_back(concretize(s, a)); objAt(s, r[0], n, wr, wr ? "write" : "read"); return r; }
  Val m = mkB(64, mv);
  uint32_t id = (uint32_t)(m.lo >> 32);
  Obj* o = s.mem.get(id);
  if (!o || o->freed || o->size < n || !validAccess(s, m.lo, n, wr)) {
    uint64_t x = concretize(s, a);
    objAt(s, x, n, wr, wr ? "write" : "read");
    r.push_back(x); return r;
  }
  // is the access always inside this object?
  Val off = binop(SUB, a, Val(64, addrOf(id)));
  Val inb = icmp(ULE, off, Val(64, o->size - n));
  if (!branch(s, inb)) { // the model satisfied inb, so this cannot happen
    uint64_t x = concretize(s, a); objAt(s, x, n, wr, wr ? "write" : "read"); r.push_back(x); return r;
  }
  uint64_t moff = m.lo - addrOf(id);
  unsigned stride = 1;
  if (n > 1 && (n & (n - 1)) == 0) {
    Val al = icmp(EQ, binop(AND, off, Val(64, n - 1)), Val(64, moff & (n - 1)));
    if (al.isC() ? al.lo : check(s, mkNot(al.e), nullptr) == UNSAT) stride = n;
  }
  // bounds of the offset by binary search would cost queries; enumerate if small
  uint64_t cnt = (o->size - n) / stride + 1;
  if (cnt <= 512) {
    for (uint64_t x = moff % stride; x + n <= o->size; x += stride) r.push_back(addrOf(id, x));
    return r;
  }
  uint64_t x = concretize(s, a);
  r.push_back(x);
  return r;
}
static Val loadScalar(State& s, const Val& a, unsigned w, bool isFP) {
  if (a.isC()) return loadScalarC(s, a.lo, w, isFP);
  unsigned n = (w + 7) / 8;
  vector<uint64_t> r = resolve(s, a, n, false);
  Val acc; bool first = true;
  for (auto c : r) {
    Val v = loadScalarC(s, c, w, isFP);
    if (first) { acc = v; first = false; }
    else acc = mkIte(keep(Z3_mk_eq(Z, a.e, numBV(64, c))), v, acc);
  }
  return acc;
}
static void storeScalar(State& s, const Val& a, const Val& v, bool isFP) {
  if (a.isC()) { storeScalarC(s, a.lo, v); return; }
  unsigned n = (v.w + 7) / 8;
  vector<uint64_t> r = resolve(s, a, n, true);
  if (r.size() == 1) { storeScalarC(s, r[0], v); return; }
  for (size_t i = 0; i + 1 < r.size(); i++) if (r[i + 1] - r[i] < n) { uint64_t x = concretize(s, a); storeScalarC(s, x, v); return; }
  Val vv = v; if (vv.w & 7) vv = zext(vv, (vv.w + 7) & ~7u);
  for (auto c : r) {
    Val old = loadScalarC(s, c, vv.w, isFP);
    storeScalarC(s, c, mkIte(keep(Z3_mk_eq(Z, a.e, numBV(64, c))), vv, old));
  }
}
static Val loadTy(State& s, const Val& a, Type* t) {
  unsigned w;
  if (scalarWidth(t, w)) return loadScalar(s, a, w, t->isFloatingPointTy());
  if (t->isX86_FP80Ty()) throw Terminate{"x86_fp80 load", true};
  Agg* g = new Agg; Val res = Val::agg(g);
  if (auto* sv = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = DL->getTypeStoreSize(sv->getElementType());
    if (sv->getElementType()->isIntegerTy(1)) throw Terminate{"load of <n x i1>", true};
    for (unsigned i = 0; i < sv->getNumElements(); i++) g->v.push_back(loadTy(s, binop(ADD, a, Val(64, (uint64_t)i * ew)), sv->getElementType()));
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t ew = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) g->v.push_back(loadTy(s, binop(ADD, a, Val(64, i * ew)), at->getElementType()));
  } else if (auto* sx = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(sx);
    for (unsigned i = 0; i < sx->getNumElements(); i++) g->v.push_back(loadTy(s, binop(ADD, a, Val(64, sl->getElementOffset(i))), sx->getElementType(i)));
  } else throw Terminate{"load of unsupported type", true};
  return res;
}
static void storeTy(State& s, const Val& a, const Val& v, Type* t) {
  unsigned w;
  if (scalarWidth(t, w)) { storeScalar(s, a, v, t->isFloatingPointTy()); return; }
  if (v.k != KA) throw Terminate{"store of unsupported type", true};
  if (auto* sv = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = DL->getTypeStoreSize(sv->getElementType());
    for (unsigned i = 0; i < sv->getNumElements(); i++) storeTy(s, binop(ADD, a, Val(64, (uint64_t)i * ew)), v.a->v[i], sv->getElementType());
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t ew = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(s, binop(ADD, a, Val(64, i * ew)), v.a->v[i], at->getElementType());
  } else if (auto* sx = dyn_cast<StructType>(t)) {
    auto* sl = DL->getStructLayout(sx);
    for (unsigned i = 0; i < sx->getNumElements(); i++) storeTy(s, binop(ADD, a, Val(64, sl->getElementOffset(i))), v.a->v[i], sx->getElementType(i));
  } else throw Terminate{"store of unsupported type", true};
}
static void copyBytes(State& s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  if (specDepth && (dst >> 32) < specFirstNew) {
    if (n > 64) throw SpecAbort{"copy"};
    objAt(s, src, n, false, "read"); objAt(s, dst, n, true, "write");
    vector<Val> b; unsigned w = n % 8 == 0 && src % 8 == 0 && dst % 8 == 0 ? 8 : 1;
    for (uint64_t i = 0; i < n; i += w) b.push_back(loadScalarC(s, src + i, w * 8, false));
    for (uint64_t i = 0; i < n; i += w) storeScalarC(s, dst + i, b[i / w]);
    return;
  }
  if (n > (1u << 30)) throw Violation{"out-of-bounds", "copy of a huge number of bytes"};
  Obj* so = objAt(s, src, n, false, "read"); objAt(s, dst, n, true, "write");
  if (raceOn(s)) { if (so->kind != OConst) raceAccess(s, src, n, false); raceAccess(s, dst, n, true); }
  uint64_t soff = (src & 0xffffffffull) - BASE, doff = (dst & 0xffffffffull) - BASE;
  vector<uint8_t> d(so->d.begin() + soff, so->d.begin() + soff + n);
  vector<SymB> sh; if (!so->sh.empty()) sh.assign(so->sh.begin() + soff, so->sh.begin() + soff + n);
  bool anySym = false; for (auto& b : sh) if (b.v) { anySym = true; break; }
  Obj* o = s.mem.mut((uint32_t)(dst >> 32));
  memcpy(&o->d[doff], d.data(), n);
  if (anySym) { if (o->sh.empty()) o->sh.assign(o->size, SymB{nullptr, 0}); std::copy(sh.begin(), sh.end(), o->sh.begin() + doff); }
  else if (!o->sh.empty()) for (uint64_t i = 0; i < n; i++) o->sh[doff + i].v = nullptr;
}
static string readStr(State& s, const Val& a, size_t max = 400) {
  string r;
  if (!a.isC()) return readStr(s, Val(64, concretize(s, a)), max);
  if (!a.lo) return "?";
  for (size_t i = 0; i < max; i++) {
    if (!validAccess(s, a.lo + i, 1, false)) break;
    Val b = loadScalarC(s, a.lo + i, 8, false, true);
    if (!b.isC()) { r += '?'; continue; }
    if (!b.lo) break;
    r += (char)b.lo;
  }
  return r;
}

// ---------------------------------------------------------------- floating point
#include "symx_fp.inc"

// ---------------------------------------------------------------- control
static const Val& get(Frame& f, const Opnd& o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }
struct Spec { State* s; size_t base; int J; bool reached; vector<Val> phis; };
static Spec* specTop = nullptr;
static void jump(Frame& f, int to, int from) {
  CBB& b = f.f->bbs[to]; b.seen = true;
  if (specTop && to == specTop->J && specTop->s->th[0].stack.size() == specTop->base) {
    specTop->reached = true; specTop->phis.clear();
    for (auto& p : b.phis) {
      bool ok = false;
      for (auto& in : p.in) if (in.first == from) { specTop->phis.push_back(get(f, in.second)); ok = true; break; }
      if (!ok) throw SpecAbort{"phi"};
    }
    return;
  }
  if (!b.phis.empty()) {
    vector<Val> tmp; tmp.reserve(b.phis.size());
    for (auto& p : b.phis) {
      bool ok = false;
      for (auto& in : p.in) if (in.first == from) { tmp.push_back(get(f, in.second)); ok = true; break; }
      if (!ok) throw Terminate{"phi without incoming", true};
    }
    for (size_t i = 0; i < tmp.size(); i++) f.regs[b.phis[i].dst] = tmp[i];
  }
  f.prev = from; f.pc = b.start;
}
static int bbOf(Frame& f, CInst& ci) { return f.f->bbIdx[ci.I->getParent()]; }
static void finishCall(State& s, const Val* ret) {  // the top frame is at a call/invoke
  Frame& f = s.top();
  CInst& ci = f.f->code[f.pc];
  if (ci.dst >= 0 && ret) f.regs[ci.dst] = *ret;
  s.t().atSched = false; s.t().aux = 0;
  if (ci.op == Instruction::Invoke) jump(f, ci.bb[0], bbOf(f, ci));
  else f.pc++;
}
static void popFrame(State& s) {
  auto& stk = s.t().stack;
  for (uint32_t id : stk.back()->allocas) {
    auto& sl = s.mem.slot(id);
    auto o = std::make_shared<Obj>(); o->size = 0; o->kind = OStack; o->freed = true;
    static std::shared_ptr<Obj> dead = o;
    sl = dead;
  }
  stk.pop_back();
}
static void pushFrame(State& s, Function* F, const vector<Val>& args) {
  if (s.t().stack.size() > 2000) throw Violation{"stack-overflow", "recursion deeper than 2000 frames"};
  CFunc* cf = lower(F);
  if (!cf->bbs.empty()) cf->bbs[0].seen = true;
  auto f = std::make_shared<Frame>();
  f->f = cf; f->regs.resize(cf->nregs);
  size_t i = 0;
  for (auto& a : F->args()) {
    if (i < args.size()) {
      Val v = args[i];
      if (a.hasByValAttr()) {
        uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
        uint32_t id = s.mem.alloc(sz, OStack, false);
        f->allocas.push_back(id);
        copyBytes(s, addrOf(id), v.lo, sz);
        v = Val(64, addrOf(id));
      }
      f->regs[i] = v;
    }
    i++;
  }
  for (; i < args.size(); i++) f->va.push_back(args[i]);
  s.t().stack.push_back(f);
}

// exceptions ------------------------------------------------------
static string tiName(uint64_t ti) { auto it = gvNameByAddr.find(ti); return it == gvNameByAddr.end() ? "" : it->second; }
static string stdBase(const string& n) {
  static const std::map<string, string> m = {
    {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt12future_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
  auto it = m.find(n); return it == m.end() ? "" : it->second;
}
// is `base` the type `ti` or one of its (public) bases? off: adjustment
static bool tiDerived(State& s, uint64_t ti, uint64_t base, int64_t& off) {
  if (ti == base) { off = 0; return true; }
  string n = tiName(ti), bn = tiName(base);
  if (!n.empty() && n == bn) { off = 0; return true; }
  for (string x = stdBase(n); !x.empty(); x = stdBase(x)) if (x == bn) { off = 0; return true; }
  if (!validAccess(s, ti, 24, false)) return false;
  uint64_t vt = loadScalarC(s, ti, 64, false, true).lo;
  string vn; 
  { uint32_t id = vt >> 32; vn = tiName(addrOf(id)); }
  if (vn == "_ZTVN10__cxxabiv120__si_class_type_infoE")
    return tiDerived(s, loadScalarC(s, ti + 16, 64, false, true).lo, base, off);
  if (vn == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
    unsigned cnt = (unsigned)loadScalarC(s, ti + 20, 32, false, true).lo;
    for (unsigned i = 0; i < cnt; i++) {
      uint64_t b = loadScalarC(s, ti + 24 + 16 * i, 64, false, true).lo;
      int64_t fl = (int64_t)loadScalarC(s, ti + 32 + 16 * i, 64, false, true).lo;
      int64_t o2;
      if (tiDerived(s, b, base, o2)) { off = (fl >> 8) + o2; return true; }
    }
  }
  return false;
}
static int lpadSelect(State& s, LandingPadInst* lp, uint64_t tinfo, bool& enters) {
  enters = lp->isCleanup();
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    if (lp->isCatch(i)) {
      Constant* c = lp->getClause(i);
      int64_t off;
      if (c->isNullValue()) { enters = true; return 1; }
      uint64_t a = evalConst(c).lo;
      if (tiDerived(s, tinfo, a, off)) { enters = true; return (int)(a >> 32) + 2; }
    } else { // filter: an empty filter (noexcept spec) matches everything
      enters = true;
    }
  }
  return 0;
}
static LandingPadInst* lpadOf(Frame& f) {
  if (f.pc >= (int)f.f->code.size()) return nullptr;
  CInst& ci = f.f->code[f.pc];
  if (ci.op != Instruction::Invoke) return nullptr;
  return cast<InvokeInst>(ci.I)->getUnwindDest()->getLandingPadInst();
}
static void threadExit(State& s);
// unwind from the top frame (whose current instruction is the throwing call)
static void unwindFrom(State& s, bool search) {
  uint64_t ti = s.exc[s.curExc].tinfo;
  auto& stk = s.t().stack;
  if (search) {
    bool ok = false;
    for (size_t i = stk.size(); i-- > 0;) {
      Frame& f = *stk[i];
      if (LandingPadInst* lp = lpadOf(f)) {
        bool en; int sel = lpadSelect(s, lp, ti, en);
        if (sel) { ok = true; break; }
        for (unsigned c = 0; c < lp->getNumClauses(); c++) if (lp->isFilter(c)) ok = true;
        if (ok) break;
      }
      if (f.tryMarker) { ok = true; break; }
      if (f.isThreadRoot || f.ctorRoot) break;
    }
    if (!ok) {
      // inside symx_try this is reported as a termination
      throw AbortTry{"uncaught exception " + tiName(ti)};
    }
  }
  for (;;) {
    Frame& f = s.top();
    if (LandingPadInst* lp = lpadOf(f)) {
      bool en; lpadSelect(s, lp, ti, en);
      if (en) {
        CInst& ci = f.f->code[f.pc];
        s.t().atSched = false; s.t().aux = 0;
        jump(f, ci.bb[1], bbOf(f, ci));
        return;
      }
    }
    bool marker = f.tryMarker;
    if (f.isThreadRoot || f.ctorRoot || stk.size() == 1) throw AbortTry{"exception escaped"};
    popFrame(s);
    if (marker) { Val v(32, 2); finishCall(s, &v); return; }
  }
}
static void doThrow(State& s, uint64_t excAddr) { s.curExc = excAddr; unwindFrom(s, true); }
static void doAbort(State& s, const string& msg) {
  auto& stk = s.t().stack;
  for (size_t i = stk.size(); i-- > 0;) if (stk[i]->tryMarker) {
    std::shared_ptr<const Snap> snap = stk[i]->snap;
    while (stk.size() > i) popFrame(s);
    if (snap && s.th.size() == 1) { s.mem = snap->mem; s.mtx = snap->mtx; s.exc = snap->exc; s.caught = snap->caught; s.curExc = snap->curExc; s.heapLive = snap->heapLive; }
    Val v(32, 1); finishCall(s, &v);
    return;
  }
  throw Violation{"abort", msg};
}

// ---------------------------------------------------------------- scheduling
static bool enabled(State& s, int i) {
  Thread& t = s.th[i];
  switch (t.st) {
    case TRun: return true;
    case TLock: { auto it = s.mtx.find(t.waitAddr); return it == s.mtx.end() || it->second.owner < 0; }
    case TCond: return false;
    case TCondTimed: return true;
    case TJoin: return s.th[t.joinTarget].st == TDone;
    case TFutex: { if (!validAccess(s, t.waitAddr, 4, false)) return true; Val v = loadScalarC(s, t.waitAddr, 32, false, true); return !v.isC() || v.lo != t.aux; }
    case TSettle: { for (int j = 0; j < (int)s.th.size(); j++) if (j != i && s.th[j].st != TSettle && enabled(s, j)) return false; return true; }
    case TDone: return false;
  }
  return false;
}
static void activate(State& s, int i, char kind = 'S') {
  s.sched.push_back({s.schedSeq, kind, s.cur, i});
  s.cur = i;
  Thread& t = s.t();
  if (t.st == TLock || t.st == TJoin || t.st == TFutex || t.st == TSettle) t.st = TRun;  // re-executes its call
  else if (t.st == TCondTimed) { t.st = TRun; t.aux = 2; t.wake = 1; }
}
// the current thread cannot continue: pick another
static void switchAway(State& s) {
  s.schedSeq++;
  vector<int> en;
  for (int i = 0; i < (int)s.th.size(); i++) if (enabled(s, i)) en.push_back(i);
  if (en.empty()) {
    string m = "deadlock: ";
    for (int i = 0; i < (int)s.th.size(); i++) { m += "T" + std::to_string(i) + "="; m += s.th[i].st == TLock ? "lock" : s.th[i].st == TCond ? "cond" : s.th[i].st == TJoin ? "join" : s.th[i].st == TFutex ? "future" : s.th[i].st == TDone ? "done" : "run"; m += " "; }
    throw Violation{"deadlock", m};
  }
  st.schedPoints++;
  for (size_t i = 1; i < en.size(); i++) { StateP n = cloneState(s); st.forks++; activate(*n, en[i]); queueState(std::move(n)); }
  activate(s, en[0]);
}
// a point where the scheduler may preempt the current thread.  Returns true if
// the current thread goes on (with this instruction).
static bool schedPoint(State& s) {
  if (s.th.size() < 2) return true;
  if (s.t().atSched) return true;
  s.schedSeq++;
  vector<int> en;
  for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur && enabled(s, i)) en.push_back(i);
  s.t().atSched = true;
  if (en.empty()) return true;
  if (opt.preemptions >= 0 && s.preempt >= opt.preemptions) return true;
  st.schedPoints++;
  for (int j : en) {
    StateP n = cloneState(s); st.forks++;
    n->preempt++;
    activate(*n, j, 'P');
    queueState(std::move(n));
  }
  return true;
}
static void threadExit(State& s) {
  s.t().st = TDone;
  tick(s.t(), s.cur);
  switchAway(s);
}

#include "symx_handlers.inc"
#include "symx_step.inc"
