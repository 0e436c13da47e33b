// ---------------------------------------------------------------- interpreter
static Val vecMap1(const Val& a, std::function<Val(const Val&)> f) {
  if (a.k != KA) return f(a);
  Agg* g = new Agg; Val r = Val::agg(g);
  for (auto& x : a.a->v) g->v.push_back(vecMap1(x, f));
  return r;
}
static Val vecMap2(const Val& a, const Val& b, std::function<Val(const Val&, const Val&)> f) {
  if (a.k != KA) return f(a, b);
  Agg* g = new Agg; Val r = Val::agg(g);
  for (size_t i = 0; i < a.a->v.size(); i++) g->v.push_back(vecMap2(a.a->v[i], b.a->v[i], f));
  return r;
}
static Val toBits(const Val& v) {  // flatten a vector to one bit-vector (<=128 bits)
  if (v.k != KA) return v.k == KF ? Val::expr(KB, v.w, asBV(v)) : v;
  Val r; bool first = true;
  for (auto& x : v.a->v) { Val b = toBits(x); r = first ? b : concatV(b, r); first = false; }
  return r;
}
static Val fromBits(const Val& v, Type* t) {
  unsigned w;
  if (scalarWidth(t, w)) return v;
  auto* sv = dyn_cast<FixedVectorType>(t); if (!sv) throw Terminate{"bitcast to aggregate", true};
  unsigned ew = sv->getElementType()->getPrimitiveSizeInBits();
  Agg* g = new Agg; Val r = Val::agg(g);
  for (unsigned i = 0; i < sv->getNumElements(); i++) g->v.push_back(extractV(v, (i + 1) * ew - 1, i * ew));
  return r;
}
static Val bitcastV(const Val& v, Type* t) {
  unsigned w;
  if (v.k != KA && scalarWidth(t, w)) return v;
  if (v.k == KA) {
    if (auto* sv = dyn_cast<FixedVectorType>(t)) {
      if (sv->getNumElements() == v.a->v.size()) return v;
      // regroup without going through one wide word
      unsigned ew = sv->getElementType()->getPrimitiveSizeInBits();
      unsigned sw = v.a->v[0].k == KA ? 0 : v.a->v[0].w;
      Agg* g = new Agg; Val r = Val::agg(g);
      for (unsigned i = 0; i < sv->getNumElements(); i++) {
        unsigned lo = i * ew;
        if (sw >= ew) g->v.push_back(extractV(toBits(v.a->v[lo / sw]), lo % sw + ew - 1, lo % sw));
        else { Val acc; for (unsigned j = 0; j < ew / sw; j++) { Val p = toBits(v.a->v[lo / sw + j]); acc = j ? concatV(p, acc) : p; } g->v.push_back(acc); }
      }
      return r;
    }
  }
  return fromBits(toBits(v), t);
}
static Val ctpop(const Val& a) {
  if (a.isC()) return Val(a.w, __builtin_popcountll(a.lo) + __builtin_popcountll(a.hi));
  Val r(a.w, 0);
  for (unsigned i = 0; i < a.w; i++) r = binop(ADD, r, zext(extractV(a, i, i), a.w));
  return r;
}
static Val ctz(const Val& a, bool lead) {
  Val r(a.w, a.w);
  for (unsigned k = 0; k < a.w; k++) {
    unsigned i = lead ? k : a.w - 1 - k;
    Val b = extractV(a, i, i);
    Val v(a.w, lead ? a.w - 1 - i : i);
    r = b.isC() ? (b.lo ? v : r) : mkIte(b.e, v, r);
  }
  return r;
}
static Val ite(const Val& c, const Val& a, const Val& b) { return c.isC() ? (c.lo & 1 ? a : b) : mkIte(c.e, a, b); }

static bool intrinsic(State& s, CInst& ci, vector<Val>& a, Val& r) {
  switch (ci.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = concretize(s, a[2]), d = concretize(s, a[0]), q = concretize(s, a[1]); copyBytes(s, d, q, n); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(s, a[2]), d = concretize(s, a[0]); doMemset(s, d, a[1], n); return true; }
    case Intrinsic::umin: r = vecMap2(a[0], a[1], [](const Val& x, const Val& y) { return ite(icmp(ULT, x, y), x, y); }); return true;
    case Intrinsic::umax: r = vecMap2(a[0], a[1], [](const Val& x, const Val& y) { return ite(icmp(UGT, x, y), x, y); }); return true;
    case Intrinsic::smin: r = vecMap2(a[0], a[1], [](const Val& x, const Val& y) { return ite(icmp(SLT, x, y), x, y); }); return true;
    case Intrinsic::smax: r = vecMap2(a[0], a[1], [](const Val& x, const Val& y) { return ite(icmp(SGT, x, y), x, y); }); return true;
    case Intrinsic::abs: r = vecMap1(a[0], [](const Val& x) { return ite(icmp(SLT, x, Val(x.w, 0)), binop(SUB, Val(x.w, 0), x), x); }); return true;
    case Intrinsic::ctpop: r = vecMap1(a[0], ctpop); return true;
    case Intrinsic::ctlz: r = vecMap1(a[0], [](const Val& x) { return ctz(x, true); }); return true;
    case Intrinsic::cttz: r = vecMap1(a[0], [](const Val& x) { return ctz(x, false); }); return true;
    case Intrinsic::bswap: { Val acc = extractV(a[0], 7, 0); for (unsigned i = 8; i < a[0].w; i += 8) acc = concatV(acc, extractV(a[0], i + 7, i)); r = acc; return true; }
    case Intrinsic::bitreverse: { Val acc = extractV(a[0], 0, 0); for (unsigned i = 1; i < a[0].w; i++) acc = concatV(acc, extractV(a[0], i, i)); r = acc; return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      r = Val(); unsigned w = a[0].w;
      Val sh = binop(UREM, a[2], Val(w, w)), inv = binop(SUB, Val(w, w), sh);
      if (ci.iid == Intrinsic::fshl) { Val v = binop(OR, binop(SHL, a[0], sh), binop(LSHR, a[1], inv)); r = ite(icmp(EQ, sh, Val(w, 0)), a[0], v); }
      else { Val v = binop(OR, binop(LSHR, a[1], sh), binop(SHL, a[0], inv)); r = ite(icmp(EQ, sh, Val(w, 0)), a[1], v); }
      return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0].w; bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
      unsigned W = (ci.iid == Intrinsic::umul_with_overflow || ci.iid == Intrinsic::smul_with_overflow) ? 2 * w : w + 1;
      Bin op = (ci.iid == Intrinsic::uadd_with_overflow || ci.iid == Intrinsic::sadd_with_overflow) ? ADD : (ci.iid == Intrinsic::usub_with_overflow || ci.iid == Intrinsic::ssub_with_overflow) ? SUB : MUL;
      Val x = sg ? sext(a[0], W) : zext(a[0], W), y = sg ? sext(a[1], W) : zext(a[1], W);
      Val full = binop(op, x, y), lo = extractV(full, w - 1, 0);
      Val back = sg ? sext(lo, W) : zext(lo, W);
      Agg* g = new Agg; r = Val::agg(g); g->v.push_back(lo); g->v.push_back(icmp(NE, full, back));
      return true; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
      const Bin op = ci.iid == Intrinsic::sadd_sat ? ADD : SUB;
      r = vecMap2(a[0], a[1], [op](const Val& x, const Val& y) {
        Val t = binop(op, sext(x, x.w + 1), sext(y, x.w + 1)), hi = Val::c128(x.w + 1, ((u128)1 << (x.w - 1)) - 1), lo = sext(Val::c128(x.w, (u128)1 << (x.w - 1)), x.w + 1);
        return extractV(ite(icmp(SGT, t, hi), hi, ite(icmp(SLT, t, lo), lo, t)), x.w - 1, 0); });
      return true; }
    case Intrinsic::uadd_sat: r = vecMap2(a[0], a[1], [](const Val& x, const Val& y) { Val t = binop(ADD, x, y); return ite(icmp(ULT, t, x), Val::c128(x.w, ~(u128)0), t); }); return true;
    case Intrinsic::usub_sat: r = vecMap2(a[0], a[1], [](const Val& x, const Val& y) { return ite(icmp(ULT, x, y), Val(x.w, 0), binop(SUB, x, y)); }); return true;
    case Intrinsic::fabs: r = vecMap1(a[0], fabsV); return true;
    case Intrinsic::sqrt: r = libm(s, "sqrt", a[0], nullptr); return true;
    case Intrinsic::sin: r = libm(s, "sin", a[0], nullptr); return true;
    case Intrinsic::cos: r = libm(s, "cos", a[0], nullptr); return true;
    case Intrinsic::exp: r = libm(s, "exp", a[0], nullptr); return true;
    case Intrinsic::log: r = libm(s, "log", a[0], nullptr); return true;
    case Intrinsic::exp2: r = libm(s, "exp2", a[0], nullptr); return true;
    case Intrinsic::pow: r = libm(s, "pow", a[0], &a[1]); return true;
    case Intrinsic::powi: { if (!a[1].isC()) throw Terminate{"symbolic powi", true}; Val e(64, dToBits((double)(int64_t)sgn(a[1]))); r = libm(s, "pow", a[0], &e); return true; }
    case Intrinsic::floor: r = roundTo(s, a[0], "floor"); return true;
    case Intrinsic::ceil: r = roundTo(s, a[0], "ceil"); return true;
    case Intrinsic::trunc: r = roundTo(s, a[0], "trunc"); return true;
    case Intrinsic::round: r = roundTo(s, a[0], "round"); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = roundTo(s, a[0], "rint"); return true;
    case Intrinsic::lround: case Intrinsic::llround: r = fpToInt(s, roundTo(s, a[0], "round"), ci.w, true); return true;
    case Intrinsic::lrint: case Intrinsic::llrint: r = fpToInt(s, roundTo(s, a[0], "rint"), ci.w, true); return true;
    case Intrinsic::fma: case Intrinsic::fmuladd:
      if (opt.real || ci.iid == Intrinsic::fmuladd || (a[0].isC() && a[1].isC() && a[2].isC())) r = fop(s, FADD, fop(s, FMUL, a[0], a[1]), a[2]);
      else r = mkF(a[0].w, Z3_mk_fpa_fma(Z, zRNE, asFP(a[0]), asFP(a[1]), asFP(a[2])));
      return true;
    case Intrinsic::minnum: case Intrinsic::minimum: r = ite(fcmp(CmpInst::FCMP_UNO, a[1], a[1]), a[0], ite(fcmp(CmpInst::FCMP_OLT, a[0], a[1]), a[0], a[1])); return true;
    case Intrinsic::maxnum: case Intrinsic::maximum: r = ite(fcmp(CmpInst::FCMP_UNO, a[1], a[1]), a[0], ite(fcmp(CmpInst::FCMP_OGT, a[0], a[1]), a[0], a[1])); return true;
    case Intrinsic::copysign: {
      if (a[0].k == KR || a[1].k == KR) { Val m = fabsV(a[0]); r = ite(fcmp(CmpInst::FCMP_OLT, a[1], fromD(a[1].w, 0)), fneg(m), m); return true; }
      if (a[1].isC()) { Val m = fabsV(a[0]); r = (a[1].lo >> (a[1].w - 1)) & 1 ? fneg(m) : m; return true; }
      Val m = fabsV(a[0]); Val sg = extractV(toBits(a[1]), a[1].w - 1, a[1].w - 1); r = ite(sg, fneg(m), m); return true; }
    case Intrinsic::is_fpclass: {
      unsigned mask = (unsigned)a[1].lo; const Val& x = a[0];
      if (x.isC()) { double d = toD(x); bool neg = std::signbit(d); int c = std::fpclassify(d); bool v = false;
        if (std::isnan(d)) v = mask & 3; else if (c == FP_INFINITE) v = mask & (neg ? 4 : 0x200); else if (c == FP_NORMAL) v = mask & (neg ? 8 : 0x100);
        else if (c == FP_SUBNORMAL) v = mask & (neg ? 0x10 : 0x80); else v = mask & (neg ? 0x20 : 0x40);
        r = Val(1, v); return true; }
      if (opt.real) { // finite
        Val pos = fcmp(CmpInst::FCMP_OGT, x, fromD(x.w, 0)), neg = fcmp(CmpInst::FCMP_OLT, x, fromD(x.w, 0));
        r = ite(pos, Val(1, !!(mask & 0x100)), ite(neg, Val(1, !!(mask & 8)), Val(1, !!(mask & 0x40)))); return true; }
      Z3_ast e = asFP(x), neg = keep(Z3_mk_fpa_is_negative(Z, e)), acc = zFalse;
      auto add = [&](Z3_ast c, unsigned nm, unsigned pm) { keep(c); if ((mask & nm) && (mask & pm)) acc = mkOr(acc, c); else if (mask & nm) acc = mkOr(acc, mkAnd(c, neg)); else if (mask & pm) acc = mkOr(acc, mkAnd(c, mkNot(neg))); };
      if (mask & 3) acc = mkOr(acc, keep(Z3_mk_fpa_is_nan(Z, e)));
      add(Z3_mk_fpa_is_infinite(Z, e), 4, 0x200); add(Z3_mk_fpa_is_normal(Z, e), 8, 0x100); add(Z3_mk_fpa_is_subnormal(Z, e), 0x10, 0x80); add(Z3_mk_fpa_is_zero(Z, e), 0x20, 0x40);
      r = mkB(1, acc); return true; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::stackrestore: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: r = Val(64, 0); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation:
    case Intrinsic::annotation: case Intrinsic::expect_with_probability: r = a[0]; return true;
    case Intrinsic::is_constant: r = Val(1, 0); return true;
    case Intrinsic::objectsize: r = Val(ci.w, a[1].lo ? 0 : ~0ull); return true;
    case Intrinsic::eh_typeid_for: r = Val(32, (uint64_t)((int)(a[0].lo >> 32) + 2)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: throw Violation{"trap", "trap instruction (undefined behaviour check)"};
    case Intrinsic::threadlocal_address: {
      if (s.cur == 0) { r = a[0]; return true; }
      auto it = tlsByAddr.find(a[0].lo); if (it == tlsByAddr.end()) { r = a[0]; return true; }
      auto& m = s.t().tls; auto f = m.find(it->second);
      if (f != m.end()) { r = Val(64, f->second); return true; }
      uint64_t sz = DL->getTypeAllocSize(it->second->getValueType());
      uint32_t id = s.mem.alloc(sz, OGlobal, false);
      // initial image: zero (all thread-locals here are zero-initialised)
      m[it->second] = addrOf(id); r = Val(64, addrOf(id)); return true; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
      Val acc = a[0].a->v[0];
      for (size_t i = 1; i < a[0].a->v.size(); i++) acc = binop(ci.iid == Intrinsic::vector_reduce_add ? ADD : ci.iid == Intrinsic::vector_reduce_or ? OR : ci.iid == Intrinsic::vector_reduce_and ? AND : ci.iid == Intrinsic::vector_reduce_xor ? XOR : MUL, acc, a[0].a->v[i]);
      r = acc; return true; }
    case Intrinsic::x86_ssse3_pshuf_b_128: {
      Agg* g = new Agg; r = Val::agg(g);
      for (int i = 0; i < 16; i++) {
        const Val& m = a[1].a->v[i];
        if (m.isC()) { g->v.push_back(m.lo & 0x80 ? Val(8, 0) : a[0].a->v[m.lo & 15]); continue; }
        Val lo = extractV(m, 3, 0), v = a[0].a->v[0];
        // lookup, most significant index bit first
        vector<Val> t = a[0].a->v;
        for (int b = 0; b < 4; b++) { Val bit = extractV(m, b, b); vector<Val> u; for (size_t k = 0; k < t.size(); k += 2) u.push_back(ite(bit, t[k + 1], t[k])); t = u; }
        Val hb = extractV(m, 7, 7);
        g->v.push_back(ite(hb, Val(8, 0), t[0]));
      }
      return true; }
    case Intrinsic::x86_sse2_cvtps2dq: r = vecMap1(a[0], [&](const Val& x) { return cvtRound(s, x); }); return true;
    case Intrinsic::x86_sse2_psrl_w: {
      Val cnt = toBits(a[1]); cnt = extractV(cnt, 63, 0);
      r = vecMap1(a[0], [&](const Val& x) { return ite(icmp(UGT, cnt, Val(64, 15)), Val(16, 0), binop(LSHR, x, extractV(cnt, 15, 0))); }); return true; }
    case Intrinsic::x86_sse2_psrl_d: case Intrinsic::x86_sse2_psrl_q: case Intrinsic::x86_sse2_psll_w: case Intrinsic::x86_sse2_psll_d: case Intrinsic::x86_sse2_psll_q:
    case Intrinsic::x86_sse2_psra_w: case Intrinsic::x86_sse2_psra_d:
    case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_sse2_pslli_d:
    case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_psrai_w: case Intrinsic::x86_sse2_psrai_d: {
      Val cnt = toBits(a[1]); cnt = cnt.w > 64 ? extractV(cnt, 63, 0) : zext(cnt, 64);
      const auto id = ci.iid;
      const bool ar = id == Intrinsic::x86_sse2_psra_w || id == Intrinsic::x86_sse2_psra_d || id == Intrinsic::x86_sse2_psrai_w || id == Intrinsic::x86_sse2_psrai_d;
      const bool left = id == Intrinsic::x86_sse2_psll_w || id == Intrinsic::x86_sse2_psll_d || id == Intrinsic::x86_sse2_psll_q || id == Intrinsic::x86_sse2_pslli_w || id == Intrinsic::x86_sse2_pslli_d || id == Intrinsic::x86_sse2_pslli_q;
      r = vecMap1(a[0], [&](const Val& x) {
        Val big = icmp(UGT, cnt, Val(64, x.w - 1)), c = x.w == 64 ? cnt : extractV(cnt, x.w - 1, 0);
        if (ar) return binop(ASHR, x, ite(big, Val(x.w, x.w - 1), c));
        return ite(big, Val(x.w, 0), binop(left ? SHL : LSHR, x, c)); });
      return true; }
    case Intrinsic::x86_sse2_pavg_b: case Intrinsic::x86_sse2_pavg_w:
      r = vecMap2(a[0], a[1], [](const Val& x, const Val& y) { Val t = binop(ADD, binop(ADD, zext(x, x.w + 1), zext(y, x.w + 1)), Val(x.w + 1, 1)); return extractV(t, x.w, 1); }); return true;
    case Intrinsic::x86_sse2_pmadd_wd: case Intrinsic::x86_ssse3_pmadd_ub_sw_128: {
      const bool ub = ci.iid == Intrinsic::x86_ssse3_pmadd_ub_sw_128; const unsigned W = ub ? 16 : 32;
      Agg* g = new Agg; r = Val::agg(g);
      for (size_t i = 0; i < a[0].a->v.size(); i += 2) {
        auto m = [&](size_t k) { return binop(MUL, ub ? zext(a[0].a->v[k], 32) : sext(a[0].a->v[k], 32), sext(a[1].a->v[k], 32)); };
        Val t = binop(ADD, m(i), m(i + 1));
        if (ub) { Val hi(32, 32767), lo(32, (uint32_t)-32768); t = extractV(ite(icmp(SGT, t, hi), hi, ite(icmp(SLT, t, lo), lo, t)), W - 1, 0); }
        g->v.push_back(t);
      }
      return true; }
    case Intrinsic::x86_sse2_pmovmskb_128: {
      Val acc = extractV(a[0].a->v[15], 7, 7);
      for (int i = 14; i >= 0; i--) acc = concatV(acc, extractV(a[0].a->v[i], 7, 7));
      r = zext(acc, 32); return true; }
    case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_sse2_packssdw_128: {
      Agg* g = new Agg; r = Val::agg(g); const bool u = ci.iid == Intrinsic::x86_sse2_packuswb_128;
      for (int k = 0; k < 2; k++) for (auto& x : a[k].a->v) {
        const unsigned h = x.w / 2; Val hi(x.w, u ? 255 : (1u << (h - 1)) - 1), lo = u ? Val(x.w, 0) : sext(Val(h, 1u << (h - 1)), x.w);
        g->v.push_back(extractV(ite(icmp(SGT, x, hi), hi, ite(icmp(SLT, x, lo), lo, x)), h - 1, 0));
      }
      return true; }
    case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_smax: {
      Val acc = a[0].a->v[0]; const auto id = ci.iid;
      const Cmp p = id == Intrinsic::vector_reduce_umin ? ULT : id == Intrinsic::vector_reduce_umax ? UGT : id == Intrinsic::vector_reduce_smin ? SLT : SGT;
      for (size_t i = 1; i < a[0].a->v.size(); i++) acc = ite(icmp(p, acc, a[0].a->v[i]), acc, a[0].a->v[i]);
      r = acc; return true; }
    case Intrinsic::x86_sse2_psad_bw: {
      Agg* g = new Agg; r = Val::agg(g);
      for (int h = 0; h < 2; h++) {
        Val acc(64, 0);
        for (int i = 0; i < 8; i++) {
          const Val &x = a[0].a->v[h * 8 + i], &y = a[1].a->v[h * 8 + i];
          Val d = ite(icmp(ULT, x, y), binop(SUB, y, x), binop(SUB, x, y));
          acc = binop(ADD, acc, zext(d, 64));
        }
        g->v.push_back(acc);
      }
      return true; }
    default: break;
  }
  return false;
}

static void execCall(State& s, Frame& f, CInst& ci) {
  if (specDepth && (ci.handler >= 0 || !ci.callee)) throw SpecAbort{"call"};
  vector<Val> a; a.reserve(ci.ops.size());
  size_t na = cast<CallBase>(ci.I)->arg_size();
  for (size_t i = 0; i < na; i++) a.push_back(get(f, ci.ops[i]));
  Val r; if (ci.w) r = Val(ci.w, 0);
  Function* callee = ci.callee;
  if (!callee) {
    if (ci.ops.size() <= na) { // inline asm
      auto* ia = dyn_cast<InlineAsm>(cast<CallBase>(ci.I)->getCalledOperand());
      if (ia && ia->getAsmString().empty()) { finishCall(s, &r); return; }
      throw Terminate{"inline assembly", true};
    }
    uint64_t t = concretize(s, get(f, ci.ops[na]));
    auto it = funcById.find(t >> 32);
    if (it == funcById.end()) {
      if (t < 4096) throw Violation{"null-dereference", "call through a null function pointer"};
      throw Violation{"invalid-call", "call through an invalid function pointer"};
    }
    callee = it->second;
    auto h = handlerIdx.find(callee->getName().str());
    if (h != handlerIdx.end()) { CInst c2 = ci; c2.handler = h->second; if (handlers[h->second](s, c2, a, r)) finishCall(s, &r); return; }
  } else if (ci.handler >= 0) {
    if (handlers[ci.handler](s, ci, a, r)) finishCall(s, &r);
    return;
  } else if (ci.iid) {
    if (intrinsic(s, ci, a, r)) { finishCall(s, &r); return; }
    throw Terminate{"unsupported intrinsic " + callee->getName().str(), true};
  }
  if (callee->isDeclaration()) throw Terminate{"unsupported external function " + callee->getName().str() + " (" + demangleShort(callee->getName().str()) + ") called from " + f.f->shortName, true};
  pushFrame(s, callee, a);
}
static Cmp cmpPred(unsigned p) {
  switch (p) {
    case CmpInst::ICMP_EQ: return EQ; case CmpInst::ICMP_NE: return NE; case CmpInst::ICMP_UGT: return UGT; case CmpInst::ICMP_UGE: return UGE;
    case CmpInst::ICMP_ULT: return ULT; case CmpInst::ICMP_ULE: return ULE; case CmpInst::ICMP_SGT: return SGT; case CmpInst::ICMP_SGE: return SGE;
    case CmpInst::ICMP_SLT: return SLT; default: return SLE;
  }
}
static Val binopChecked(State& s, Bin op, const Val& a, const Val& b) {
  if ((op == UDIV || op == SDIV || op == UREM || op == SREM) && !b.isC()) {
    if (branch(s, icmp(EQ, b, Val(b.w, 0)))) throw Violation{"division-by-zero", "integer division by zero"};
  }
  return binop(op, a, b);
}
static void step(State& s);
// Executes both sides of a branch up to the point where they meet again, with
// stores under the side's condition, and merges the values: one path instead of
// two.  Anything that cannot be executed this way (further symbolic decisions
// that cannot be merged either, library calls, errors) gives up, and the
// branch forks as usual.
static void mergeBranch(State& s, const Val& cv, const CInst& ci, int J, int from) {
  const size_t base = s.th[0].stack.size();
  Z3_ast outer = specGuard; Spec* up = specTop; const uint32_t outerNew = specFirstNew;
  specFirstNew = s.mem.next;
  if (specDepth >= 12) throw SpecAbort{"depth"};
  vector<Val> got[2];
  // a side may go round a loop and redefine registers that are live at the join
  const vector<Val> before = s.top().regs; vector<Val> after0;
  specDepth++;
  for (int side = 0; side < 2; side++) {
    Z3_ast c = side == 0 ? cv.e : mkNot(cv.e);
    specGuard = outer ? mkAnd(outer, c) : c;
    Spec sp{&s, base, J, false, {}}; specTop = &sp;
    jump(s.top(), ci.bb[side], from);
    for (int n = 0; !sp.reached; n++) {
      if (n > 400) throw SpecAbort{"long"};
      step(s);
      if (s.th[0].stack.size() < base) throw SpecAbort{"unwound"};
    }
    got[side] = std::move(sp.phis);
    if (side == 0) { after0 = std::move(s.top().regs); s.top().regs = before; }
  }
  specDepth--; specGuard = outer; specTop = up; specFirstNew = outerNew;
  CFunc* cf = s.top().f; CBB& b = cf->bbs[J];
  vector<Val> m;
  auto same = [](const Val& x, const Val& y) { return x.isC() && y.isC() ? x.c() == y.c() && x.w == y.w : x.k == y.k && x.w == y.w && (x.k == KA ? x.a == y.a : x.e == y.e); };
  { Frame& f = s.top();
    for (int q : cf->liveIn[J]) {
      const Val x = after0[q], y = f.regs[q];
      if (same(x, y)) continue;
      if (x.k == KA || y.k == KA) throw SpecAbort{"mixed register"};
      if (x.isC() && y.isC() && x.w == 64 && x.lo >= (1ull << 32) + BASE && y.lo >= (1ull << 32) + BASE) throw SpecAbort{"pointer register"};
      if (x.w != y.w) throw SpecAbort{"register width"};
      f.regs[q] = mkIte(cv.e, x, y);
    } }
  for (size_t i = 0; i < got[0].size(); i++) {
    const Val &x = got[0][i], &y = got[1][i];
    if (same(x, y)) { m.push_back(x); continue; }
    if (x.k != y.k && (x.k == KA || y.k == KA)) throw SpecAbort{"mixed phi"};
    if (b.phis[i].ptr) throw SpecAbort{"pointer phi"};
    m.push_back(mkIte(cv.e, x, y));
  }
  if (up && up->J == J && up->base == base) { up->reached = true; up->phis = std::move(m); return; }
  Frame& f = s.top();
  for (size_t i = 0; i < m.size(); i++) f.regs[b.phis[i].dst] = m[i];
  f.prev = from; f.pc = b.start;
}
static bool tryMerge(State& s, CInst& ci, const Val& cv) {
  if (!opt.ifconv || s.th.size() != 1 || ci.specFail > 2 + ci.specOk / 4) return false;
  Frame& f = s.top();
  int from = bbOf(f, ci), J = f.f->ipdom[from];
  if (J < 0) { if (opt.verbose) st.notes.insert("no merge (no join) " + whereRepo(s)); return false; }
  Val c = cv;
  if (specDepth) { mergeBranch(s, c, ci, J, from); return true; }
  StateP bak = cloneState(s); bak->id = s.id;
  uint64_t steps = s.steps;
  try { mergeBranch(s, c, ci, J, from); ci.specOk++; st.merged++; return true; }
  catch (SpecAbort& a) { if (opt.verbose) st.notes.insert(string("no merge (") + a.why + ") " + whereRepo(s)); }
  catch (Violation& v) { if (opt.verbose) st.notes.insert("no merge (" + v.kind + " " + v.msg + ") " + whereRepo(s)); }
  catch (Terminate& t) { if (opt.verbose) st.notes.insert("no merge (" + t.why + ") " + whereRepo(s)); }
  catch (AbortTry&) { if (opt.verbose) st.notes.insert("no merge (abort) " + whereRepo(s)); }
  specDepth = 0; specGuard = nullptr; specTop = nullptr; g_volatile = false;
  ci.specFail++;
  s = std::move(*bak); s.steps = steps + 1;
  return false;
}
// one instruction
static void step(State& s) {
  Frame& f = s.top();
  CInst& ci = f.f->code[f.pc];
  s.steps++; st.steps++;
  auto R = [&](const Val& v) { Val c = v; Frame& g = s.top(); g.regs[ci.dst] = c; g.pc++; };
  auto O = [&](int i) -> const Val& { return get(f, ci.ops[i]); };
  auto B = [&](Bin op) {
    const Val &a = O(0), &b = O(1);
    if (a.k == KA) { R(vecMap2(a, b, [&](const Val& x, const Val& y) { return binopChecked(s, op, x, y); })); return; }
    R(binopChecked(s, op, a, b)); };
  auto FB = [&](FOp op) { const Val &a = O(0), &b = O(1); if (a.k == KA) R(vecMap2(a, b, [&](const Val& x, const Val& y) { return fop(s, op, x, y); })); else R(fop(s, op, a, b)); };
  auto scalarW = [&]() { unsigned w = 0; scalarWidth(ci.ty->getScalarType(), w); return w; };
  switch (ci.op) {
    case Instruction::Add: B(ADD); break;
    case Instruction::Sub: B(SUB); break;
    case Instruction::Mul: B(MUL); break;
    case Instruction::UDiv: B(UDIV); break;
    case Instruction::SDiv: B(SDIV); break;
    case Instruction::URem: B(UREM); break;
    case Instruction::SRem: B(SREM); break;
    case Instruction::Shl: B(SHL); break;
    case Instruction::LShr: B(LSHR); break;
    case Instruction::AShr: B(ASHR); break;
    case Instruction::And: B(AND); break;
    case Instruction::Or: B(OR); break;
    case Instruction::Xor: {
      const Val &a = O(0), &b = O(1);
      if (a.k == KR && b.isC() && b.lo == 0x8000000000000000ull) { R(fneg(a)); break; }
      B(XOR); break; }
    case Instruction::FAdd: FB(FADD); break;
    case Instruction::FSub: FB(FSUB); break;
    case Instruction::FMul: FB(FMUL); break;
    case Instruction::FDiv: FB(FDIV); break;
    case Instruction::FRem: FB(FREM); break;
    case Instruction::FNeg: R(vecMap1(O(0), [](const Val& x) { return fneg(x); })); break;
    case Instruction::ICmp: { const Val &a = O(0), &b = O(1); Cmp p = cmpPred(ci.pred); if (a.k == KA) R(vecMap2(a, b, [&](const Val& x, const Val& y) { return icmp(p, x, y); })); else R(icmp(p, a, b)); break; }
    case Instruction::FCmp: { const Val &a = O(0), &b = O(1); if (a.k == KA) R(vecMap2(a, b, [&](const Val& x, const Val& y) { return fcmp(ci.pred, x, y); })); else R(fcmp(ci.pred, a, b)); break; }
    case Instruction::Trunc: { unsigned w = scalarW(); R(vecMap1(O(0), [&](const Val& x) { return extractV(x, w - 1, 0); })); break; }
    case Instruction::ZExt: { unsigned w = scalarW(); R(vecMap1(O(0), [&](const Val& x) { return zext(x, w); })); break; }
    case Instruction::SExt: { unsigned w = scalarW(); R(vecMap1(O(0), [&](const Val& x) { return sext(x, w); })); break; }
    case Instruction::FPTrunc: case Instruction::FPExt: {
      unsigned w = scalarW(); if (!w) throw Terminate{"long double", true};
      R(vecMap1(O(0), [&](const Val& x) { return fpCast(x, w); })); break; }
    case Instruction::FPToSI: { unsigned w = scalarW(); R(vecMap1(O(0), [&](const Val& x) { return fpToInt(s, x, w, true); })); break; }
    case Instruction::FPToUI: { unsigned w = scalarW(); R(vecMap1(O(0), [&](const Val& x) { return fpToInt(s, x, w, false); })); break; }
    case Instruction::SIToFP: { unsigned w = scalarW(); if (!w) throw Terminate{"long double", true}; R(vecMap1(O(0), [&](const Val& x) { return intToFp(s, x, w, true); })); break; }
    case Instruction::UIToFP: { unsigned w = scalarW(); if (!w) throw Terminate{"long double", true}; R(vecMap1(O(0), [&](const Val& x) { return intToFp(s, x, w, false); })); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w = scalarW(); R(vecMap1(O(0), [&](const Val& x) { return w < x.w ? extractV(x, w - 1, 0) : zext(x, w); })); break; }
    case Instruction::BitCast: R(bitcastV(O(0), ci.ty)); break;
    case Instruction::Freeze: case Instruction::AddrSpaceCast: R(O(0)); break;
    case Instruction::Select: {
      const Val& c = O(0);
      if (c.k == KA) { Agg* g = new Agg; Val r = Val::agg(g); for (size_t i = 0; i < c.a->v.size(); i++) g->v.push_back(ite(c.a->v[i], O(1).a->v[i], O(2).a->v[i])); R(r); break; }
      if (c.isC()) { R(c.lo & 1 ? O(1) : O(2)); break; }
      R(mkIte(c.e, O(1), O(2))); break; }
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(ci.I);
      uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType()) * concretize(s, O(0));
      uint32_t id = s.mem.alloc(n, OStack, true);
      Frame& g = s.top(); g.allocas.push_back(id);
      R(Val(64, addrOf(id))); break; }
    case Instruction::GetElementPtr: {
      if (ci.ty->isVectorTy()) throw Terminate{"vector gep", true};
      Val p = O(0); int64_t c = ci.goff;
      for (auto& g : ci.gidx) {
        const Val& x = get(f, g.o);
        if (x.isC()) c += (int64_t)sgn(x) * g.scale;
        else p = binop(ADD, p, binop(MUL, sext(x, 64), Val(64, (uint64_t)g.scale)));
      }
      if (c) p = binop(ADD, p, Val(64, (uint64_t)c));
      R(p); break; }
    case Instruction::Load: {
      auto* li = cast<LoadInst>(ci.I);
      if (li->isAtomic() && s.th.size() > 1) {
        if (opt.atomicSched) { schedPoint(s); s.t().atSched = false; }
        Val v = loadScalarC(s, concretize(s, O(0)), ci.w, false, true);
        if (li->getOrdering() != AtomicOrdering::Monotonic) raceSync(s.t().vc, s.syncvc[O(0).lo]);
        R(v); break;
      }
      g_volatile = li->isVolatile(); Val lv = loadTy(s, O(0), ci.ty); g_volatile = false;
      R(lv); break; }
    case Instruction::Store: {
      auto* si = cast<StoreInst>(ci.I);
      if (si->isAtomic() && s.th.size() > 1) {
        if (opt.atomicSched) { schedPoint(s); s.t().atSched = false; }
        uint64_t p = concretize(s, O(1)); storeScalarC(s, p, O(0), true);
        if (si->getOrdering() != AtomicOrdering::Monotonic) { s.syncvc[p] = s.t().vc; tick(s.t(), s.cur); } s.top().pc++; break;
      }
      g_volatile = si->isVolatile(); storeTy(s, O(1), O(0), si->getValueOperand()->getType()); g_volatile = false; s.top().pc++; break; }
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(ci.I);
      if (opt.atomicSched && s.th.size() > 1) { schedPoint(s); s.t().atSched = false; }
      uint64_t p = concretize(s, O(0)); Val old = loadScalarC(s, p, ci.w, false, true), v = O(1), n;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(ADD, old, v); break; case AtomicRMWInst::Sub: n = binop(SUB, old, v); break;
        case AtomicRMWInst::And: n = binop(AND, old, v); break; case AtomicRMWInst::Or: n = binop(OR, old, v); break; case AtomicRMWInst::Xor: n = binop(XOR, old, v); break;
        default: throw Terminate{"atomicrmw", true};
      }
      storeScalarC(s, p, n, true);
      if (s.th.size() > 1 && rm->getOrdering() != AtomicOrdering::Monotonic) { auto& vc = s.syncvc[p]; raceSync(s.t().vc, vc); vc = s.t().vc; tick(s.t(), s.cur); }
      R(old); break; }
    case Instruction::AtomicCmpXchg: {
      if (opt.atomicSched && s.th.size() > 1) { schedPoint(s); s.t().atSched = false; }
      uint64_t p = concretize(s, O(0)); Val e = O(1), n = O(2), old = loadScalarC(s, p, e.w, false, true);
      Val ok = icmp(EQ, old, e);
      storeScalarC(s, p, ite(ok, n, old), true);
      if (s.th.size() > 1) { auto& vc = s.syncvc[p]; raceSync(s.t().vc, vc); vc = s.t().vc; tick(s.t(), s.cur); }
      Agg* g = new Agg; Val r = Val::agg(g); g->v.push_back(old); g->v.push_back(ok); R(r); break; }
    case Instruction::Fence: f.pc++; break;
    case Instruction::ExtractValue: { Val v = O(0); for (unsigned i : cast<ExtractValueInst>(ci.I)->indices()) { Val t = v.a->v[i]; v = t; } R(v); break; }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins = [&](const Val& ag, ArrayRef<unsigned> ix, const Val& x) -> Val {
        if (ix.empty()) return x; Agg* g = new Agg; g->v = ag.a->v; Val r = Val::agg(g); g->v[ix[0]] = ins(ag.a->v[ix[0]], ix.drop_front(), x); return r; };
      R(ins(O(0), cast<InsertValueInst>(ci.I)->getIndices(), O(1))); break; }
    case Instruction::ExtractElement: { uint64_t i = concretize(s, O(1)); R(O(0).a->v.at(i)); break; }
    case Instruction::InsertElement: { uint64_t i = concretize(s, O(2)); Agg* g = new Agg; g->v = O(0).a->v; g->v.at(i) = O(1); R(Val::agg(g)); break; }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(ci.I); const Val &a = O(0), &b = O(1); size_t n = a.a->v.size();
      Agg* g = new Agg; Val r = Val::agg(g);
      for (int m : sv->getShuffleMask()) g->v.push_back(m < 0 ? a.a->v[0] : (size_t)m < n ? a.a->v[m] : b.a->v[m - n]);
      R(r); break; }
    case Instruction::Br:
      if (ci.ops.empty()) jump(f, ci.bb[0], bbOf(f, ci));
      else {
        if (opt.ifconv && !O(0).isC() && s.th.size() == 1) {
          Val c = O(0); bool both = false;
          if (!specDepth) {
            bool v = branch(s, c.e, &both);
            if (!both) { Frame& g = s.top(); jump(g, v ? ci.bb[0] : ci.bb[1], bbOf(g, ci)); break; }
          }
          if (tryMerge(s, ci, c)) break;
          if (specDepth) throw SpecAbort{"nested"};
        }
        bool v = branch(s, get(s.top(), ci.ops[0])); Frame& g = s.top(); jump(g, v ? ci.bb[0] : ci.bb[1], bbOf(g, ci)); }
      break;
    case Instruction::Switch: {
      Val c = O(0); int to = ci.bb[0];
      for (auto& k : ci.cases) if (branch(s, icmp(EQ, c, k.first))) { to = k.second; break; }
      Frame& g = s.top(); jump(g, to, bbOf(g, ci)); break; }
    case Instruction::Call: case Instruction::Invoke: execCall(s, f, ci); break;
    case Instruction::LandingPad: {
      bool en; int sel = lpadSelect(s, cast<LandingPadInst>(ci.I), s.exc[s.curExc].tinfo, en);
      Agg* g = new Agg; Val r = Val::agg(g); g->v.push_back(Val(64, s.curExc)); g->v.push_back(Val(32, (uint64_t)sel)); R(r); break; }
    case Instruction::Resume: {
      s.curExc = O(0).a->v[0].lo;
      bool marker = f.tryMarker, root = f.isThreadRoot || f.ctorRoot || s.t().stack.size() == 1;
      if (root) throw AbortTry{"exception escaped"};
      popFrame(s);
      if (marker) { Val v(32, 2); finishCall(s, &v); break; }
      unwindFrom(s, false); break; }
    case Instruction::Ret: {
      Val r; bool hv = !ci.ops.empty(); if (hv) r = O(0);
      bool marker = f.tryMarker, troot = f.isThreadRoot, croot = f.ctorRoot;
      popFrame(s);
      if (troot) { threadExit(s); break; }
      if (croot) break;
      if (s.t().stack.empty()) throw Terminate{"done", false};
      if (marker) { Val v(32, 0); finishCall(s, &v); break; }
      finishCall(s, hv ? &r : nullptr); break; }
    case Instruction::Unreachable: throw Violation{"unreachable", "execution reached an unreachable point (missing return or undefined behaviour)"};
    case Instruction::VAArg: default:
      throw Terminate{string("unsupported instruction ") + ci.I->getOpcodeName(), true};
  }
}

static void runState(StateP sp) {
  State& s = *sp;
  st.paths++;
  try {
    uint64_t n = 0;
    for (;;) {
      try {
        step(s);
      } catch (AbortTry& t) {
        doAbort(s, t.msg);
      }
      if ((++n & 0xfff) == 0) {
        if (nowSec() - tStart > opt.maxTime) { incomplete("time limit"); throw Terminate{"time limit", true}; }
        if (s.steps > opt.maxSteps) throw Terminate{"step limit on one path", true};
      }
    }
  } catch (Terminate& t) {
    if (t.isIncomplete) {
      string w = t.why; 
      // an unsupported construct on an infeasible path does not matter
      incomplete(w + " [" + whereRepo(s) + "]");
      if (opt.verbose) fprintf(stderr, "%s\n%s", w.c_str(), backtrace(s).c_str());
    }
    else if (t.why == "done" || t.why == "skip" || t.why == "exit") {
      if (t.why != "skip") { st.completed++; witness(s); }
    } else st.infeasible++;
  } catch (Violation& v) {
    if (!report(s, v.kind, v.msg, nullptr, nullptr)) st.infeasible++;
    else st.completed++;
  }
}

// ---------------------------------------------------------------- main
static void initConstant(State& s, uint32_t id, uint64_t off, const Constant* c) {
  Obj* o = s.mem.mut(id);
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(&o->d[off], raw.data(), raw.size()); return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initConstant(s, id, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initConstant(s, id, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto* cv = dyn_cast<ConstantVector>(c)) {
    uint64_t es = DL->getTypeStoreSize(cv->getType()->getElementType());
    for (unsigned i = 0; i < cv->getNumOperands(); i++) initConstant(s, id, off + i * es, cv->getOperand(i));
    return;
  }
  Val v;
  try { v = evalConst(c); } catch (Terminate& e) { return; }
  unsigned n = DL->getTypeStoreSize(t);
  u128 x = v.c();
  for (unsigned i = 0; i < n && i < 16; i++, x >>= 8) o->d[off + i] = (uint8_t)x;
}
static void zerr(Z3_context c, Z3_error_code e) { throw Terminate{string("z3 error: ") + Z3_get_error_msg(c, e), true}; }

int main(int argc, char** argv) {
  string bc;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto val = [&]() { return string(argv[++i]); };
    if (a == "--entry") opt.entry = val();
    else if (a == "--witnesses") opt.witnesses = atoi(val().c_str());
    else if (a == "--atomic-sched") opt.atomicSched = true;
    else if (a == "--out") opt.out = val();
    else if (a == "--repo") opt.repo = val();
    else if (a == "--real") opt.real = true;
    else if (a == "--max-time") opt.maxTime = atof(val().c_str());
    else if (a == "--max-paths") opt.maxPaths = strtoull(val().c_str(), 0, 10);
    else if (a == "--max-steps") opt.maxSteps = strtoull(val().c_str(), 0, 10);
    else if (a == "--solver-timeout") opt.solverTimeout = atoi(val().c_str());
    else if (a == "--alloc-limit") opt.allocLimit = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--assert-timeout") opt.assertTimeout = atoi(val().c_str());
    else if (a == "--preemptions") opt.preemptions = atoi(val().c_str());
    else if (a == "--ifconv") opt.ifconv = true;
    else if (a == "--spurious") opt.spurious = true;
    else if (a == "--no-races") opt.races = false;
    else if (a == "-v") opt.verbose = true;
    else if (a == "--param") { string p = val(); auto e = p.find('='); opt.params[p.substr(0, e)] = strtoll(p.c_str() + e + 1, 0, 10); }
    else bc = a;
  }
  tStart = nowSec();
  { string c; for (size_t i = 0; i <= opt.out.size(); i++) { if (i == opt.out.size() || opt.out[i] == '/') if (!c.empty()) mkdir(c.c_str(), 0755); if (i < opt.out.size()) c += opt.out[i]; } }
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  Z = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(Z, zerr);
  zTrue = keep(Z3_mk_true(Z)); zFalse = keep(Z3_mk_false(Z));
  zRNE = keep(Z3_mk_fpa_rne(Z)); zRTZ = keep(Z3_mk_fpa_rtz(Z)); zRTN = keep(Z3_mk_fpa_rtn(Z)); zRTP = keep(Z3_mk_fpa_rtp(Z)); zRNA = keep(Z3_mk_fpa_rna(Z));

  SMDiagnostic err;
  mod = parseIRFile(bc, err, llctx);
  if (!mod) { err.print("symx", errs()); return 2; }
  DL = &mod->getDataLayout();
  initHandlers();

  StateP s0(new State);
  s0->th.resize(1);
  s0->th[0].vc.assign(1, 1);
  s0->model = std::make_shared<Asg>();
  // addresses
  for (auto& F : *mod) {
    uint32_t id = s0->mem.alloc(1, OFunc, false);
    globalAddr[&F] = addrOf(id); funcById[id] = &F;
  }
  for (auto& G : mod->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 1024);
    uint32_t id = s0->mem.alloc(sz, G.isDeclaration() ? OExtern : OGlobal, false);
    globalAddr[&G] = addrOf(id); gvNameByAddr[addrOf(id)] = G.getName().str();
    if (G.isThreadLocal()) tlsByAddr[addrOf(id)] = &G;
  }
  for (auto& G : mod->globals()) if (G.hasInitializer()) {
    initConstant(*s0, globalAddr[&G] >> 32, 0, G.getInitializer());
    if (G.isConstant()) s0->mem.mut(globalAddr[&G] >> 32)->kind = OConst;
  }
  Function* E = mod->getFunction(opt.entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no entry function %s\n", opt.entry.c_str()); return 2; }
  vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* gc = mod->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands()) {
        auto* cs = cast<ConstantStruct>(op);
        if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
      }
  }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  pushFrame(*s0, E, {});
  for (size_t i = ctors.size(); i-- > 0;) { pushFrame(*s0, ctors[i].second, {}); s0->top().ctorRoot = true; }
  queueState(std::move(s0));
  while (!worklist.empty()) {
    if (nowSec() - tStart > opt.maxTime) { incomplete("time limit"); break; }
    if (st.paths >= opt.maxPaths) { incomplete("path limit"); break; }
    if (found.size() >= opt.maxViolations) { incomplete("stopped after several violations"); break; }
    StateP s = std::move(worklist.back()); worklist.pop_back();
    runState(std::move(s));
  }
  // functions of the repository whose code was executed (also when inlined)
  for (auto& cfp : cfuncs) {
    CFunc& cf = *cfp.second; size_t bi = 0;
    for (auto& bb : cf.bbs) { bi++;
      if (!bb.seen) continue;
      int e = bi < cf.bbs.size() ? cf.bbs[bi].start : (int)cf.code.size();
      for (int i = bb.start; i < e; i++) if (const DILocation* d = cf.code[i].I->getDebugLoc().get())
        for (; d; d = d->getInlinedAt()) {
          auto* sp = d->getScope()->getSubprogram(); if (!sp) continue;
          string path = sp->getFilename().str();
          if (!path.empty() && path[0] != '/') path = sp->getDirectory().str() + "/" + path;
          if (path.compare(0, opt.repo.size(), opt.repo) != 0) continue;
          string n = sp->getLinkageName().empty() ? sp->getName().str() : demangleShort(sp->getLinkageName().str());
          st.functions.insert(n);
        } } }
  // ---- result
  string rf = opt.out + "/result.json";
  std::ofstream o(rf);
  o << "{\n \"paths\": " << st.paths << ", \"completed\": " << st.completed << ", \"infeasible\": " << st.infeasible << ", \"forks\": " << st.forks
    << ",\n \"steps\": " << st.steps << ", \"queries\": " << st.queries << ", \"sat\": " << st.qSat << ", \"unsat\": " << st.qUnsat << ", \"unknown\": " << st.qUnk << ", \"cache_hits\": " << st.cacheHits
    << ",\n \"solver_s\": " << st.solverTime << ", \"wall_s\": " << nowSec() - tStart << ",\n \"asserts\": " << st.asserts << ", \"assert_queries\": " << st.assertQueries << ", \"assert_unsat\": " << st.assertUnsat
    << ", \"assert_concrete\": " << st.assertConcrete << ", \"undecided\": " << st.undecided << ", \"merged\": " << st.merged << ", \"sched_points\": " << st.schedPoints << ",\n \"pending\": " << worklist.size() << ",\n";
  auto strs = [&](const char* n, auto& c) { o << " \"" << n << "\": ["; bool f = true; for (auto& x : c) { o << (f ? "" : ", ") << "\"" << jsonEsc(x) << "\""; f = false; } o << "],\n"; };
  strs("incomplete", st.incomplete); strs("notes", st.notes); strs("functions", st.functions);
  auto cnt = [&](const char* n, std::map<string, uint64_t>& c) { o << " \"" << n << "\": {"; bool f = true; for (auto& x : c) { o << (f ? "" : ", ") << "\"" << jsonEsc(x.first) << "\": " << x.second; f = false; } o << "},\n"; };
  cnt("reach", st.reach); cnt("assert_labels", st.assertLabels);
  o << " \"violations\": ["; bool ff = true;
  for (auto& v : found) { o << (ff ? "" : ",") << "\n  {\"kind\": \"" << jsonEsc(v.kind) << "\", \"label\": \"" << jsonEsc(v.label) << "\", \"where\": \"" << jsonEsc(v.where) << "\", \"file\": \"" << jsonEsc(v.file) << "\"}"; ff = false; }
  o << "]\n}\n";
  o.close();
  if (opt.verbose) fprintf(stderr, "paths %llu completed %llu infeasible %llu queries %llu (sat %llu unsat %llu unk %llu, %.1fs) steps %llu violations %zu incomplete %zu wall %.1f\n", (unsigned long long)st.paths, (unsigned long long)st.completed, (unsigned long long)st.infeasible, (unsigned long long)st.queries, (unsigned long long)st.qSat, (unsigned long long)st.qUnsat, (unsigned long long)st.qUnk, st.solverTime, (unsigned long long)st.steps, found.size(), st.incomplete.size(), nowSec() - tStart);
  _exit(0);
}
