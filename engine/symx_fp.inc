// ---------------------------------------------------------------- FP / real
static Val mkF(unsigned w, Z3_ast e) { return Val::expr(KF, w, keep(e)); }
static Val mkR(Z3_ast e, unsigned w = 64) {
  keep(e);
  return Val::expr(KR, w, e);
}
static Val fromD(unsigned w, double d) { return w == 32 ? Val(32, fToBits((float)d)) : Val(64, dToBits(d)); }
static double toD(const Val& v) { return v.w == 32 ? (double)bitsToF((uint32_t)v.lo) : bitsToD(v.lo); }
// simplify a real expression when all leaves are numerals
static Val realNorm(Z3_ast e, unsigned w) {
  keep(e);
  return Val::expr(KR, w, e);
}
static bool bothNum(Z3_ast a, Z3_ast b) { return isNum(a) && isNum(b); }
static bool isZeroR(Z3_ast a) { return isNum(a) && Z3_get_numeral_double(Z, a) == 0.0 && string(Z3_get_numeral_string(Z, a)) == "0"; }
static bool isOneR(Z3_ast a) { return isNum(a) && string(Z3_get_numeral_string(Z, a)) == "1"; }
static Val realBack(Z3_ast e, unsigned w) {
  // numerals that are exactly representable go back to concrete doubles
  if (isNum(e)) {
    double d = Z3_get_numeral_double(Z, e);
    if (std::isfinite(d) && numReal(d) == e) {
      if (w == 64) return Val(64, dToBits(d));
      if ((double)(float)d == d) return Val(32, fToBits((float)d));
    }
  }
  return Val::expr(KR, w, e);
}
static Z3_ast zero_() { static Z3_ast z = numReal(0.0); return z; }
static Z3_ast one_() { static Z3_ast z = numReal(1.0); return z; }
static Z3_ast rAdd(Z3_ast a, Z3_ast b) {
  if (isZeroR(a)) return b; if (isZeroR(b)) return a;
  Z3_ast x[2] = {a, b}; Z3_ast r = keep(Z3_mk_add(Z, 2, x));
  return bothNum(a, b) ? simp(r) : r;
}
static Z3_ast rSub(Z3_ast a, Z3_ast b) {
  if (isZeroR(b)) return a;
  if (a == b) return zero_();
  if (isZeroR(a)) { Z3_ast r = keep(Z3_mk_unary_minus(Z, b)); return isNum(b) ? simp(r) : r; }
  Z3_ast x[2] = {a, b}; Z3_ast r = keep(Z3_mk_sub(Z, 2, x));
  return bothNum(a, b) ? simp(r) : r;
}
static Z3_ast rMul(Z3_ast a, Z3_ast b) {
  if (isZeroR(a) || isZeroR(b)) return zero_();
  if (isOneR(a)) return b; if (isOneR(b)) return a;
  Z3_ast x[2] = {a, b}; Z3_ast r = keep(Z3_mk_mul(Z, 2, x));
  return bothNum(a, b) ? simp(r) : r;
}
static Z3_ast rDiv(Z3_ast a, Z3_ast b) {
  if (isZeroR(a)) return zero_();
  if (isOneR(b)) return a;
  if (a == b) return one_();
  Z3_ast r = keep(Z3_mk_div(Z, a, b));
  return bothNum(a, b) ? simp(r) : r;
}
static Z3_ast rNeg(Z3_ast a) { return rSub(zero_(), a); }
static Z3_ast rLt(Z3_ast a, Z3_ast b) { if (bothNum(a, b)) return simp(keep(Z3_mk_lt(Z, a, b))); return keep(Z3_mk_lt(Z, a, b)); }
static Z3_ast rLe(Z3_ast a, Z3_ast b) { if (bothNum(a, b)) return simp(keep(Z3_mk_le(Z, a, b))); return keep(Z3_mk_le(Z, a, b)); }
static Z3_ast rEq(Z3_ast a, Z3_ast b) { if (a == b) return zTrue; if (bothNum(a, b)) return simp(keep(Z3_mk_eq(Z, a, b))); return keep(Z3_mk_eq(Z, a, b)); }

static std::unordered_map<unsigned, std::pair<Val, bool>> fpFromInt;  // results of exact-source conversions
static bool exactInt(State& s, const Val& a, unsigned w, Val& out);
static Val intToFp(State& s, const Val& a, unsigned w, bool sg);
static bool knownNonzero(State& s, Z3_ast y);
typedef vector<std::pair<unsigned, int>> Mono;  // (symbol ast id, exponent), sorted
static bool monomialForm(State& s, Z3_ast e, Mono& n, Mono& d, Rat& c);
enum FOp { FADD, FSUB, FMUL, FDIV, FREM };
static bool inReal(const Val& a, const Val& b) { return a.k == KR || b.k == KR; }
static Val fop(State& s, FOp op, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (a.isC() && b.isC()) {
    feclearexcept(FE_ALL_EXCEPT);
    volatile double x = toD(a), y = toD(b); volatile double r = 0; volatile float rf = 0;
    if (w == 32) { volatile float xf = (float)x, yf = (float)y;
      switch (op) { case FADD: rf = xf + yf; break; case FSUB: rf = xf - yf; break; case FMUL: rf = xf * yf; break; case FDIV: rf = xf / yf; break; case FREM: rf = fmodf(xf, yf); break; }
      r = rf;
    } else switch (op) { case FADD: r = x + y; break; case FSUB: r = x - y; break; case FMUL: r = x * y; break; case FDIV: r = x / y; break; case FREM: r = fmod(x, y); break; }
    bool inexact = fetestexcept(FE_INEXACT);
    if (!opt.real || !inexact || !std::isfinite((double)r) || op == FREM) return fromD(w, r);
    Rat p = ratOfDouble(x), q = ratOfDouble(y);
    Rat z; if (op == FADD) z = p + q; else if (op == FSUB) z = p - q; else if (op == FMUL) z = p * q; else z = p / q;
    return Val::expr(KR, w, numRat(z));
  }
  if (opt.real) {
    if ((a.isC() && !std::isfinite(toD(a))) || (b.isC() && !std::isfinite(toD(b)))) {
      // infinities only meet finite values here
      double x = a.isC() ? toD(a) : 1.0, y = b.isC() ? toD(b) : 1.0;
      if ((op == FADD || op == FSUB)) return fromD(w, op == FADD ? x + y : x - y);
      throw Terminate{"non-finite constant in real arithmetic", true};
    }
    Z3_ast x = asReal(a), y = asReal(b);
    switch (op) {
      case FADD: return realBack(rAdd(x, y), w);
      case FSUB: return realBack(rSub(x, y), w);
      case FMUL: return realBack(rMul(x, y), w);
      case FDIV: {
        Z3_ast z = rEq(y, zero_());
        if (!knownNonzero(s, y) && branch(s, z)) { st.notes.insert("path with a zero real divisor left to IEEE semantics (not followed): " + whereRepo(s)); throw Terminate{"real division by zero", false}; }
        return realBack(rDiv(x, y), w);
      }
      default: throw Terminate{"real fmod", true};
    }
  }
  Z3_ast x = asFP(a), y = asFP(b);
  switch (op) {
    case FADD: return mkF(w, Z3_mk_fpa_add(Z, zRNE, x, y));
    case FSUB: return mkF(w, Z3_mk_fpa_sub(Z, zRNE, x, y));
    case FMUL: return mkF(w, Z3_mk_fpa_mul(Z, zRNE, x, y));
    case FDIV: return mkF(w, Z3_mk_fpa_div(Z, zRNE, x, y));
    case FREM: return freshAux(s, "fmod", KF, w);
  }
  return a;
}
static Val fneg(const Val& a) {
  if (a.isC()) return Val(a.w, a.lo ^ (1ull << (a.w - 1)));
  if (a.k == KR) return realBack(rNeg(a.e), a.w);
  return mkF(a.w, Z3_mk_fpa_neg(Z, asFP(a)));
}
static Val fabsV(const Val& a) {
  if (a.isC()) return Val(a.w, a.lo & ~(1ull << (a.w - 1)));
  if (a.k == KR) { Z3_ast c = rLt(a.e, zero_()); return mkIte(c, Val::expr(KR, a.w, rNeg(a.e)), a); }
  return mkF(a.w, Z3_mk_fpa_abs(Z, asFP(a)));
}
static bool narrowInt(const Val& a, Val& out) {
  if (a.isC()) {
    double d = toD(a);
    if (!(std::fabs(d) <= 9007199254740992.0) || d != std::trunc(d) || (d == 0 && std::signbit(d))) return false;
    out = Val(64, (uint64_t)(int64_t)d); return true;
  }
  if (a.k != KF) return false;
  auto it = fpFromInt.find(Z3_get_ast_id(Z, a.e));
  if (it == fpFromInt.end() || it->second.first.w > (a.w == 32 ? 24u : 53u)) return false;
  out = it->second.second ? sext(it->second.first, 64) : zext(it->second.first, 64); return true;
}
static Val fcmp(unsigned p, const Val& a, const Val& b) {
  typedef CmpInst C;
  Val ia, ib;
  if (!(a.isC() && b.isC()) && !opt.real && narrowInt(a, ia) && narrowInt(b, ib)) {
    switch (p) {
      case C::FCMP_ORD: return Val(1, 1); case C::FCMP_UNO: return Val(1, 0);
      case C::FCMP_OEQ: case C::FCMP_UEQ: return icmp(EQ, ia, ib);
      case C::FCMP_ONE: case C::FCMP_UNE: return icmp(NE, ia, ib);
      case C::FCMP_OGT: case C::FCMP_UGT: return icmp(SGT, ia, ib);
      case C::FCMP_OGE: case C::FCMP_UGE: return icmp(SGE, ia, ib);
      case C::FCMP_OLT: case C::FCMP_ULT: return icmp(SLT, ia, ib);
      case C::FCMP_OLE: case C::FCMP_ULE: return icmp(SLE, ia, ib);
    }
  }
  if (p == C::FCMP_TRUE) return Val(1, 1);
  if (p == C::FCMP_FALSE) return Val(1, 0);
  if (a.isC() && b.isC()) {
    double x = toD(a), y = toD(b); bool u = std::isnan(x) || std::isnan(y);
    switch (p) {
      case C::FCMP_OEQ: return Val(1, x == y); case C::FCMP_OGT: return Val(1, x > y); case C::FCMP_OGE: return Val(1, x >= y);
      case C::FCMP_OLT: return Val(1, x < y); case C::FCMP_OLE: return Val(1, x <= y); case C::FCMP_ONE: return Val(1, !u && x != y);
      case C::FCMP_ORD: return Val(1, !u); case C::FCMP_UNO: return Val(1, u); case C::FCMP_UEQ: return Val(1, u || x == y);
      case C::FCMP_UGT: return Val(1, u || x > y); case C::FCMP_UGE: return Val(1, u || x >= y); case C::FCMP_ULT: return Val(1, u || x < y);
      case C::FCMP_ULE: return Val(1, u || x <= y); case C::FCMP_UNE: return Val(1, u || x != y);
    }
  }
  if (opt.real) {
    // comparisons against infinities / NaN constants
    for (int side = 0; side < 2; side++) {
      const Val& k = side ? b : a;
      if (k.isC() && !std::isfinite(toD(k))) {
        double inf = toD(k);
        double x = side ? 0.0 : inf, y = side ? inf : 0.0;
        return fcmp(p, Val(64, dToBits(x)), Val(64, dToBits(y)));
      }
    }
    Z3_ast x = asReal(a), y = asReal(b);
    switch (p) {
      case C::FCMP_OEQ: case C::FCMP_UEQ: return mkB(1, rEq(x, y));
      case C::FCMP_ONE: case C::FCMP_UNE: return mkB(1, mkNot(rEq(x, y)));
      case C::FCMP_OGT: case C::FCMP_UGT: return mkB(1, rLt(y, x));
      case C::FCMP_OGE: case C::FCMP_UGE: return mkB(1, rLe(y, x));
      case C::FCMP_OLT: case C::FCMP_ULT: return mkB(1, rLt(x, y));
      case C::FCMP_OLE: case C::FCMP_ULE: return mkB(1, rLe(x, y));
      case C::FCMP_ORD: return Val(1, 1);
      case C::FCMP_UNO: return Val(1, 0);
    }
  }
  Z3_ast x = asFP(a), y = asFP(b);
  auto U = [&]() { return mkOr(keep(Z3_mk_fpa_is_nan(Z, x)), keep(Z3_mk_fpa_is_nan(Z, y))); };
  auto K = [&](Z3_ast e) { return keep(e); };
  Z3_ast r = nullptr;
  switch (p) {
    case C::FCMP_OEQ: r = K(Z3_mk_fpa_eq(Z, x, y)); break;
    case C::FCMP_UNE: r = mkNot(K(Z3_mk_fpa_eq(Z, x, y))); break;
    case C::FCMP_OGT: r = K(Z3_mk_fpa_gt(Z, x, y)); break;
    case C::FCMP_OGE: r = K(Z3_mk_fpa_geq(Z, x, y)); break;
    case C::FCMP_OLT: r = K(Z3_mk_fpa_lt(Z, x, y)); break;
    case C::FCMP_OLE: r = K(Z3_mk_fpa_leq(Z, x, y)); break;
    case C::FCMP_ULE: r = mkNot(K(Z3_mk_fpa_gt(Z, x, y))); break;
    case C::FCMP_ULT: r = mkNot(K(Z3_mk_fpa_geq(Z, x, y))); break;
    case C::FCMP_UGE: r = mkNot(K(Z3_mk_fpa_lt(Z, x, y))); break;
    case C::FCMP_UGT: r = mkNot(K(Z3_mk_fpa_leq(Z, x, y))); break;
    case C::FCMP_ONE: r = mkAnd(mkNot(K(Z3_mk_fpa_eq(Z, x, y))), mkNot(U())); break;
    case C::FCMP_UEQ: r = mkOr(K(Z3_mk_fpa_eq(Z, x, y)), U()); break;
    case C::FCMP_ORD: r = mkNot(U()); break;
    case C::FCMP_UNO: r = U(); break;
  }
  return mkB(1, r);
}
static Val roundTo(State& s, const Val& a, const char* how) {
  string h = how;
  { Val r; if (exactInt(s, a, 64, r)) return a; }
  if (a.isC()) {
    double x = toD(a);
    double r = h == "floor" ? floor(x) : h == "ceil" ? ceil(x) : h == "trunc" ? trunc(x) : h == "round" ? round(x) : rint(x);
    return fromD(a.w, r);
  }
  if (a.k == KR) {
    // pick the integer by case split
    for (int i = 0; i < 64; i++) {
      if (!ensureModel(s) ) throw Terminate{"infeasible", false};
      AsgP m = s.model;
      if (!s.modelOk) { if (check(s, rEq(a.e, a.e) == zTrue ? keep(Z3_mk_le(Z, a.e, rAdd(a.e, one_()))) : zTrue, &m) == UNSAT) throw Terminate{"infeasible", false}; }
      Z3_ast v = evalIn(m, a.e);
      if (!v) throw Terminate{"real rounding without model", true};
      double x = ratToDouble(v);
      double r = h == "floor" ? floor(x) : h == "ceil" ? ceil(x) : h == "trunc" ? trunc(x) : h == "round" ? round(x) : rint(x);
      const double r0 = r;
      for (double r : {r0, r0 + 1, r0 - 1}) {  // the model value may be an approximation of an irrational number
        Z3_ast k = numReal(r), c;
        if (h == "floor") c = mkAnd(rLe(k, a.e), rLt(a.e, rAdd(k, one_())));
        else if (h == "ceil") c = mkAnd(rLe(a.e, k), rLt(rSub(k, one_()), a.e));
        else if (h == "trunc") c = r > 0 ? mkAnd(rLe(k, a.e), rLt(a.e, rAdd(k, one_()))) : r < 0 ? mkAnd(rLe(a.e, k), rLt(rSub(k, one_()), a.e)) : mkAnd(rLt(a.e, one_()), rLt(rNeg(one_()), a.e));
        else { Z3_ast hf = numReal(0.5); c = r > 0 ? mkAnd(rLe(rSub(k, hf), a.e), rLt(a.e, rAdd(k, hf))) : r < 0 ? mkAnd(rLt(rSub(k, hf), a.e), rLe(a.e, rAdd(k, hf))) : mkAnd(rLt(rSub(k, hf), a.e), rLt(a.e, rAdd(k, hf))); }
        if (branch(s, c)) return fromD(a.w, r);
      }
      throw Terminate{"real rounding split", true};
    }
  }
  Z3_ast rm = h == "floor" ? zRTN : h == "ceil" ? zRTP : h == "trunc" ? zRTZ : h == "round" ? zRNA : zRNE;
  return mkF(a.w, Z3_mk_fpa_round_to_integral(Z, rm, asFP(a)));
}
static Val fpToInt(State& s, const Val& a, unsigned w, bool sg) {
  unsigned hw = w <= 32 && sg ? 32 : 64;  // x86 conversion width
  if (!sg && w < 32) hw = 32;
  if (a.isC()) {
    double x = toD(a);
    if (sg || w < 64) {
      double t = trunc(x);
      double lim = ldexp(1.0, hw - 1);
      int64_t r;
      if (!(t >= -lim && t < lim)) r = hw == 32 ? (int64_t)INT32_MIN : INT64_MIN;
      else r = (int64_t)t;
      return Val(w, (uint64_t)r);
    }
    uint64_t r;
    if (x < 9223372036854775808.0) { double t = trunc(x); r = (t >= -9223372036854775808.0) ? (uint64_t)(int64_t)t : 0x8000000000000000ull; }
    else if (x < 18446744073709551616.0) r = (uint64_t)x;
    else r = 0x8000000000000000ull;
    return Val(w, r);
  }
  if (a.k == KR) { Val r = roundTo(s, a, "trunc"); return fpToInt(s, r, w, sg); }
  { Val r; if (exactInt(s, a, w, r)) return r; }
  Z3_ast x = asFP(a);
  if (sg || w < 64) {
    Z3_ast lo = asFP(fromD(a.w, -ldexp(1.0, hw - 1))), hi = asFP(fromD(a.w, ldexp(1.0, hw - 1)));
    // in range after truncation
    Z3_ast inr;
    if (hw == 32 && a.w == 64) {
      Z3_ast lom = asFP(fromD(64, -2147483649.0));
      inr = mkAnd(keep(Z3_mk_fpa_gt(Z, x, lom)), keep(Z3_mk_fpa_lt(Z, x, hi)));
    } else inr = mkAnd(keep(Z3_mk_fpa_geq(Z, x, lo)), keep(Z3_mk_fpa_lt(Z, x, hi)));
    Val conv = Val::expr(KB, hw, keep(Z3_mk_fpa_to_sbv(Z, zRTZ, x, hw)));
    Val r = mkIte(inr, conv, Val(hw, 1ull << (hw - 1)));
    return w < hw ? extractV(r, w - 1, 0) : r;
  }
  Z3_ast hi = asFP(fromD(a.w, 18446744073709551616.0)), lo = asFP(fromD(a.w, -1.0));
  Z3_ast inr = mkAnd(keep(Z3_mk_fpa_gt(Z, x, lo)), keep(Z3_mk_fpa_lt(Z, x, hi)));
  Z3_ast neg = mkAnd(keep(Z3_mk_fpa_leq(Z, x, lo)), keep(Z3_mk_fpa_geq(Z, x, asFP(fromD(a.w, -9223372036854775808.0)))));
  Val u = Val::expr(KB, 64, keep(Z3_mk_fpa_to_ubv(Z, zRTZ, x, 64)));
  Val g = Val::expr(KB, 64, keep(Z3_mk_fpa_to_sbv(Z, zRTZ, x, 64)));
  return mkIte(inr, u, mkIte(neg, g, Val(64, 0x8000000000000000ull)));
}
static Val intToFp(State& s, const Val& a, unsigned w, bool sg) {
  if (a.isC()) {
    if (opt.real && w == 64 && a.w > 53) {
      i128 v = sg ? sgn(a) : (i128)a.c();
      double d = sg ? (double)(int64_t)v : (double)(uint64_t)v;
      if ((i128)d != v) { Rat r = sg ? Rat(BigInt((int64_t)v)) : Rat(BigInt((uint64_t)v)); return Val::expr(KR, w, numRat(r)); }
    }
    if (w == 32) return Val(32, fToBits(sg ? (float)(int64_t)sgn(a) : (float)(uint64_t)a.c()));
    return Val(64, dToBits(sg ? (double)(int64_t)sgn(a) : (double)(uint64_t)a.c()));
  }
  if (opt.real) { u128 v = concretize128(s, a); return intToFp(s, Val::c128(a.w, v), w, sg); }
  Z3_ast e = asBV(a.w == 1 ? zext(a, 8) : a);
  Val fr = mkF(w, sg ? Z3_mk_fpa_to_fp_signed(Z, zRNE, e, fpSort(w)) : Z3_mk_fpa_to_fp_unsigned(Z, zRNE, e, fpSort(w)));
  if (!fr.isC()) fpFromInt[Z3_get_ast_id(Z, fr.e)] = {a.w == 1 ? zext(a, 8) : a, sg};
  return fr;
}
// the integer a floating-point value was converted from without rounding
static bool exactInt(State& s, const Val& a, unsigned w, Val& out) {
  if (a.isC() || a.k != KF) return false;
  auto it = fpFromInt.find(Z3_get_ast_id(Z, a.e));
  if (it == fpFromInt.end()) return false;
  const Val& x = it->second.first; bool sg = it->second.second;
  unsigned p = a.w == 32 ? 24 : 53;
  if (x.w > p) {
    Val lim = Val(x.w, 1ull << p);
    Z3_ast bad = sg ? mkOr(asBool(icmp(SGT, x, lim)), asBool(icmp(SLT, x, binop(SUB, Val(x.w, 0), lim)))) : asBool(icmp(UGT, x, lim));
    if (bad != zFalse && check(s, bad, nullptr) != UNSAT) return false;
  }
  if (x.w > w) return false;
  out = sg ? sext(x, w) : zext(x, w);
  return true;
}
// float to int32, rounding to nearest even (cvtps2dq)
static Val cvtRound(State& s, const Val& a) {
  Val r;
  if (exactInt(s, a, 32, r)) return r;
  return fpToInt(s, roundTo(s, a, "rint"), 32, true);
}
static Val fpCast(const Val& a, unsigned w) {
  if (a.w == w) return a;
  if (a.isC()) {
    if (opt.real && w == 32) { double d = toD(a); if ((double)(float)d != d && std::isfinite(d)) return Val::expr(KR, w, numReal(d)); }
    return fromD(w, toD(a));
  }
  if (a.k == KR) { Val r = a; r.w = w; return r; }
  return mkF(w, Z3_mk_fpa_to_fp_float(Z, zRNE, asFP(a), fpSort(w)));
}

// ---- real-mode functions: each application is a definition
struct FnApp { string fn; Z3_ast arg, arg2; };
static std::unordered_map<unsigned, FnApp> fnOf;  // symbol ast id -> application
static void defineIn(State& s, Z3_ast c) {
  if (s.defs.insert(Z3_get_ast_id(Z, c)).second) { pushPC(s, c); s.modelOk = false; }
}
static Z3_ast fnSym(const string& fn, Z3_ast x, Z3_ast y = nullptr) {
  string n = "_" + fn + "@" + std::to_string(Z3_get_ast_id(Z, x)) + (y ? "," + std::to_string(Z3_get_ast_id(Z, y)) : "");
  int id = getSym(n, KR, 64); syms[id].aux = true;
  fnOf[Z3_get_ast_id(Z, syms[id].e)] = {fn, x, y};
  return syms[id].e;
}
static Z3_ast simpleRoot(State& s, Z3_ast x);
static Z3_ast canonTerm(State& s, Z3_ast x);
static Z3_ast splitItes(State& s, Z3_ast e);
static Z3_ast knownFn(State& s, Z3_ast x);
static Z3_ast rSqrt(State& s, Z3_ast x) {
  if (isZeroR(x)) return zero_();
  if (isOneR(x)) return one_();
  if (Z3_ast q = simpleRoot(s, x)) return q;
  x = canonTerm(s, x);
  Z3_ast y = fnSym("sqrt", x);
  defineIn(s, mkAnd(rLe(zero_(), y), rEq(rMul(y, y), x)));
  return y;
}
static void rSinCos(State& s, Z3_ast x, Z3_ast& sn, Z3_ast& cs) {
  if (isZeroR(x)) { sn = zero_(); cs = one_(); return; }
  auto it = fnOf.find(Z3_get_ast_id(Z, x));
  if (it != fnOf.end()) {
    FnApp a = it->second;
    if (a.fn == "atan") { Z3_ast r = rSqrt(s, rAdd(one_(), rMul(a.arg, a.arg))); sn = rDiv(a.arg, r); cs = rDiv(one_(), r); return; }
    if (a.fn == "asin") { sn = a.arg; cs = rSqrt(s, rSub(one_(), rMul(a.arg, a.arg))); return; }
    if (a.fn == "acos") { cs = a.arg; sn = rSqrt(s, rSub(one_(), rMul(a.arg, a.arg))); return; }
    if (a.fn == "atan2") { Z3_ast r = rSqrt(s, rAdd(rMul(a.arg, a.arg), rMul(a.arg2, a.arg2))); sn = rDiv(a.arg, r); cs = rDiv(a.arg2, r); return; }
  }
  // twice an angle that already occurs
  { Z3_ast h = canonTerm(s, rDiv(x, numReal(2)));
    string hs = "_sin@" + std::to_string(Z3_get_ast_id(Z, h));
    if (symByName.count(hs)) {
      Z3_ast a, b; rSinCos(s, h, a, b);
      sn = rMul(numReal(2), rMul(a, b)); cs = rSub(one_(), rMul(numReal(2), rMul(a, a))); return; } }
  sn = fnSym("sin", x); cs = fnSym("cos", x);
  Z3_ast pi = numReal(3.1415), hp = numReal(1.5707);
  auto imp = [&](Z3_ast a, Z3_ast b) { defineIn(s, mkOr(mkNot(a), b)); };
  imp(mkAnd(rLt(zero_(), x), rLt(x, pi)), rLt(zero_(), sn));
  imp(mkAnd(rLt(rNeg(pi), x), rLt(x, zero_())), rLt(sn, zero_()));
  imp(mkAnd(rLt(rNeg(hp), x), rLt(x, hp)), rLt(zero_(), cs));
  imp(rEq(x, zero_()), mkAnd(rEq(sn, zero_()), rEq(cs, one_())));
  defineIn(s, rEq(rAdd(rMul(sn, sn), rMul(cs, cs)), one_()));
}
static bool libmConcrete(const string& f, double x, double y, double& r) {
  if (f == "sqrt") r = sqrt(x); else if (f == "sin") r = sin(x); else if (f == "cos") r = cos(x); else if (f == "tan") r = tan(x);
  else if (f == "atan") r = atan(x); else if (f == "asin") r = asin(x); else if (f == "acos") r = acos(x); else if (f == "atan2") r = atan2(x, y);
  else if (f == "exp") r = exp(x); else if (f == "log") r = log(x); else if (f == "log2") r = log2(x); else if (f == "log10") r = log10(x);
  else if (f == "pow") r = pow(x, y); else if (f == "fmod") r = fmod(x, y); else if (f == "hypot") r = hypot(x, y); else if (f == "cbrt") r = cbrt(x);
  else if (f == "sinh") r = sinh(x); else if (f == "cosh") r = cosh(x); else if (f == "tanh") r = tanh(x); else if (f == "exp2") r = exp2(x);
  else if (f.compare(0, 3, "pow") == 0 && f.find('_') != string::npos) r = pow(strtod(f.c_str() + 3, nullptr), x);
  else return false;
  return true;
}
static Val libm(State& s, const string& f, const Val& a, const Val* b) {
  unsigned w = a.w;
  double r;
  if (a.isC() && (!b || b->isC())) {
    if (!opt.real || f == "fmod") { if (libmConcrete(f, toD(a), b ? toD(*b) : 0, r)) return fromD(w, r); }
    else if (libmConcrete(f, toD(a), b ? toD(*b) : 0, r)) {
      // exact cases stay concrete; others become a symbol bounded tightly
      feclearexcept(FE_ALL_EXCEPT);
      if (f == "sqrt" && std::isfinite(r) && ratOfDouble(r) * ratOfDouble(r) == ratOfDouble(toD(a))) return fromD(w, r);
      if (!std::isfinite(r) || !std::isfinite(toD(a))) return fromD(w, r);
      if (toD(a) == 0) return fromD(w, r);
      return fromD(w, r);  // constants of the program, not inputs: rounded value
    }
  }
  if (opt.real) {
    Z3_ast x = splitItes(s, asReal(a));
    if (f != "sqrt" && f != "pow" && f != "hypot") x = canonTerm(s, x);
    if (f != "sqrt" && f != "pow" && f != "hypot" && !b && isNum(x)) {  // a constant of the program computed without rounding
      const double v = Z3_get_numeral_double(Z, x);
      if (std::isfinite(v) && libmConcrete(f, v, 0, r) && std::isfinite(r)) return fromD(w, r);
    }
    if (f == "sqrt") {
      if (branch(s, rLt(x, zero_()))) { st.notes.insert("path taking the square root of a negative number not followed: " + whereRepo(s)); throw Terminate{"sqrt of negative", false}; }
      return realBack(rSqrt(s, x), w);
    }
    Z3_ast sn, cs;
    if (f == "sin") { rSinCos(s, x, sn, cs); return realBack(sn, w); }
    if (f == "cos") { rSinCos(s, x, sn, cs); return realBack(cs, w); }
    if (f == "tan") {
      if (Z3_ast q = knownFn(s, x)) x = q;
      auto it = fnOf.find(Z3_get_ast_id(Z, x));
      if (it != fnOf.end() && it->second.fn == "atan") return realBack(it->second.arg, w);
      rSinCos(s, x, sn, cs);
      defineIn(s, mkNot(rEq(cs, zero_())));
      return realBack(rDiv(sn, cs), w);
    }
    if (f == "atan") {
      if (isZeroR(x)) return Val(w, 0);
      { Mono n, d; Rat c;  // of a tangent
        if (monomialForm(s, x, n, d, c) && c == 1 && n.size() == 1 && d.size() == 1 && n[0].second == 1 && d[0].second == 1) {
          auto p = fnOf.find(n[0].first), q = fnOf.find(d[0].first);
          if (p != fnOf.end() && q != fnOf.end() && p->second.fn == "sin" && q->second.fn == "cos" && p->second.arg == q->second.arg) {
            Z3_ast t = p->second.arg, hp = numReal(1.5707963267948966);
            if (branch(s, mkAnd(rLt(rNeg(hp), t), rLt(t, hp)))) return realBack(t, w);
          }
        } }
      Z3_ast y = fnSym("atan", x); Z3_ast hp = numReal(1.5707963267948968);
      defineIn(s, mkAnd(mkAnd(rLt(rNeg(hp), y), rLt(y, hp)), mkAnd(keep(Z3_mk_iff(Z, rLt(zero_(), x), rLt(zero_(), y))), keep(Z3_mk_iff(Z, rLt(x, zero_()), rLt(y, zero_()))))));
      return realBack(y, w);
    }
    if (f == "asin" || f == "acos") {
      if (branch(s, mkOr(rLt(x, rNeg(one_())), rLt(one_(), x)))) throw Terminate{"asin/acos domain", false};
      Z3_ast y = fnSym(f, x);
      return realBack(y, w);
    }
    if (f == "atan2") return realBack(fnSym("atan2", x, canonTerm(s, asReal(*b))), w);
    if (f == "pow" && a.isC() && toD(a) > 0 && !b->isC()) {  // of a constant base: known to be positive
      char nm[40]; snprintf(nm, sizeof nm, "pow%a_", toD(a));
      Z3_ast y = fnSym(nm, canonTerm(s, asReal(*b))); defineIn(s, rLt(zero_(), y)); return realBack(y, w);
    }
    if (f == "exp2") { char nm[40]; snprintf(nm, sizeof nm, "pow%a_", 2.0); Z3_ast y = fnSym(nm, x); defineIn(s, rLt(zero_(), y)); return realBack(y, w); }
    if (f == "exp") { Z3_ast y = fnSym("exp", x); defineIn(s, rLt(zero_(), y)); return realBack(y, w); }
    if (f == "log") { return realBack(fnSym("log", x), w); }
    if (f == "hypot") { Z3_ast y = asReal(*b); return realBack(rSqrt(s, rAdd(rMul(x, x), rMul(y, y))), w); }
    if (f == "pow" && b->isC() && 2 * toD(*b) == floor(2 * toD(*b)) && fabs(toD(*b)) <= 16) {
      int n = (int)toD(*b); Z3_ast acc = one_();
      if (toD(*b) != floor(toD(*b))) {
        if (branch(s, rLt(x, zero_()))) throw Terminate{"fractional power of negative", false};
        n = (int)(2 * toD(*b)); x = rSqrt(s, x);
      }
      for (int i = 0; i < abs(n); i++) acc = rMul(acc, x);
      if (n < 0) acc = rDiv(one_(), acc);
      return realBack(acc, w);
    }
    throw Terminate{"real-mode function " + f, true};
  }
  if (f == "sqrt") return mkF(w, Z3_mk_fpa_sqrt(Z, zRNE, asFP(a)));
  // an unconstrained value, the same for the same argument on this path
  string n = "_" + f + "@" + std::to_string(Z3_get_ast_id(Z, asFP(a))) + (b ? "," + std::to_string(Z3_get_ast_id(Z, asFP(*b))) : "");
  int id = getSym(n, KF, w); syms[id].aux = true;
  st.notes.insert("libm " + f + " over-approximated by an arbitrary value");
  return Val::expr(KF, w, syms[id].e);
}

// ---- symbolic differentiation
static std::map<std::pair<unsigned, unsigned>, Z3_ast> diffMemo;
static Z3_ast rdiff(State& s, Z3_ast e, Z3_ast x) {
  if (e == x) return one_();
  if (isNum(e)) return zero_();
  auto key = std::make_pair(Z3_get_ast_id(Z, e), Z3_get_ast_id(Z, x));
  auto it = diffMemo.find(key); if (it != diffMemo.end()) return it->second;
  Z3_ast r = nullptr;
  Z3_app p = Z3_to_app(Z, e); unsigned n = Z3_get_app_num_args(Z, p);
  switch (dk(e)) {
    case Z3_OP_ADD: r = zero_(); for (unsigned i = 0; i < n; i++) r = rAdd(r, rdiff(s, argOf(e, i), x)); break;
    case Z3_OP_SUB: r = rdiff(s, argOf(e, 0), x); for (unsigned i = 1; i < n; i++) r = rSub(r, rdiff(s, argOf(e, i), x)); break;
    case Z3_OP_UMINUS: r = rNeg(rdiff(s, argOf(e, 0), x)); break;
    case Z3_OP_MUL: {
      r = zero_();
      for (unsigned i = 0; i < n; i++) { Z3_ast t = rdiff(s, argOf(e, i), x); for (unsigned j = 0; j < n; j++) if (j != i) t = rMul(t, argOf(e, j)); r = rAdd(r, t); }
      break; }
    case Z3_OP_DIV: { Z3_ast a = argOf(e, 0), b = argOf(e, 1);
      Z3_ast da = rdiff(s, a, x), db = rdiff(s, b, x);
      r = rSub(rDiv(da, b), rDiv(rMul(a, db), rMul(b, b))); break; }
    case Z3_OP_ITE: { Z3_ast a = rdiff(s, argOf(e, 1), x), b = rdiff(s, argOf(e, 2), x);
      r = a == b ? a : keep(Z3_mk_ite(Z, argOf(e, 0), a, b)); break; }
    case Z3_OP_UNINTERPRETED: {
      auto f = fnOf.find(Z3_get_ast_id(Z, e));
      if (f == fnOf.end()) { r = zero_(); break; }
      FnApp a = f->second; Z3_ast u = a.arg, du = rdiff(s, u, x);
      if (a.fn == "sqrt") r = rDiv(du, rMul(numReal(2), e));
      else if (a.fn == "sin") { Z3_ast sn, cs; rSinCos(s, u, sn, cs); r = rMul(cs, du); }
      else if (a.fn == "cos") { Z3_ast sn, cs; rSinCos(s, u, sn, cs); r = rNeg(rMul(sn, du)); }
      else if (a.fn == "atan") r = rDiv(du, rAdd(one_(), rMul(u, u)));
      else if (a.fn == "asin") r = rDiv(du, rSqrt(s, rSub(one_(), rMul(u, u))));
      else if (a.fn == "acos") r = rNeg(rDiv(du, rSqrt(s, rSub(one_(), rMul(u, u)))));
      else if (a.fn == "exp") r = rMul(e, du);
      else if (a.fn == "log") r = rDiv(du, u);
      else if (a.fn == "atan2") { Z3_ast v = a.arg2, dv = rdiff(s, v, x); r = rDiv(rSub(rMul(v, du), rMul(u, dv)), rAdd(rMul(u, u), rMul(v, v))); }
      else throw Terminate{"derivative of " + a.fn, true};
      break; }
    default: throw Terminate{"derivative of unsupported term", true};
  }
  diffMemo[key] = r;
  return r;
}

// ---- rational-function normal form
typedef std::map<Mono, Rat> Poly;
struct RF { Poly n, d; };
static Poly pConst(const Rat& r) { Poly p; if (r != 0) p[Mono()] = r; return p; }
static Mono mMul(const Mono& a, const Mono& b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
  }
  return r;
}
static Poly pAdd(const Poly& a, const Poly& b, int sg = 1) {
  Poly r = a;
  for (auto& t : b) { auto it = r.find(t.first); if (it == r.end()) r[t.first] = sg > 0 ? t.second : Rat(-t.second); else { if (sg > 0) it->second += t.second; else it->second -= t.second; if (it->second == 0) r.erase(it); } }
  return r;
}
static std::unordered_map<unsigned, Z3_ast> astOfId;
static RF toRF(State& s, Z3_ast e);
static std::unordered_map<unsigned, RF> sqRF;  // sqrt symbol -> its square
static const size_t POLY_LIM = 60000;
static Poly pMul(const Poly& a, const Poly& b) {
  Poly r;
  static double work = 0; static auto t0 = std::chrono::steady_clock::now();
  work += (double)a.size() * b.size();
  if (work > 2e6) {  // notice the time limit
    work = 0;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > opt.maxTime) throw Terminate{"time limit (polynomials)", true};
  }
  if (a.size() * b.size() > 40 * POLY_LIM) throw Terminate{"polynomial too large", true};
  for (auto& x : a) for (auto& y : b) {
    Mono m = mMul(x.first, y.first); Rat c = x.second * y.second;
    auto it = r.find(m); if (it == r.end()) r[m] = c; else { it->second += c; if (it->second == 0) r.erase(it); }
    if (r.size() > POLY_LIM) throw Terminate{"polynomial too large", true};
  }
  return r;
}
static bool pDivide(Poly a, const Poly& b, Poly& q);
static bool isOne(const Poly& p) { return p.size() == 1 && p.begin()->first.empty() && p.begin()->second == 1; }
static RF rfReduce(State& s, RF f);
static RF rfMul(const RF& a, const RF& b) { 
  if (a.n == b.d && !isOne(b.d)) return {b.n, a.d};
  if (b.n == a.d && !isOne(a.d)) return {a.n, b.d};
  return {pMul(a.n, b.n), isOne(a.d) ? b.d : isOne(b.d) ? a.d : pMul(a.d, b.d)}; }
static RF rfAdd(const RF& a, const RF& b, int sg) {
  if (a.d == b.d) return {pAdd(a.n, b.n, sg), a.d};
  Poly q;
  if (!isOne(a.d) && !isOne(b.d)) {
    if (pDivide(b.d, a.d, q)) return {pAdd(pMul(a.n, q), b.n, sg), b.d};
    if (pDivide(a.d, b.d, q)) return {pAdd(a.n, pMul(b.n, q), sg), a.d};
  }
  return {pAdd(isOne(b.d) ? a.n : pMul(a.n, b.d), isOne(a.d) ? b.n : pMul(b.n, a.d), sg), isOne(a.d) ? b.d : isOne(b.d) ? a.d : pMul(a.d, b.d)};
}
// eliminate even powers of sqrt symbols and cos^2
static Poly pReduce(State& s, Poly p, Poly& extraDen) {
  extraDen = pConst(1);
  for (int round = 0; round < 200; round++) {
    unsigned var = 0; bool isCos = false; int maxExp = 0;
    for (auto& t : p) for (auto& v : t.first) if (v.second >= 2 && v.first >= var) {
      auto f = fnOf.find(v.first);
      if (f == fnOf.end()) continue;
      if (f->second.fn == "sqrt" || f->second.fn == "cos") { if (v.first > var) { var = v.first; maxExp = 0; } isCos = f->second.fn == "cos"; maxExp = std::max(maxExp, v.second); }
    }
    if (!var) return p;
    RF sq;
    if (isCos) {
      Z3_ast sn = fnSym("sin", fnOf[var].arg);
      astOfId[Z3_get_ast_id(Z, sn)] = sn;
      Poly one = pConst(1), s2; s2[Mono{{Z3_get_ast_id(Z, sn), 2}}] = 1;
      sq = {pAdd(one, s2, -1), pConst(1)};
    } else {
      auto it = sqRF.find(var);
      if (it == sqRF.end()) sq = sqRF[var] = toRF(s, fnOf[var].arg); else sq = it->second;
    }
    int k = maxExp / 2;
    vector<Poly> np{pConst(1)}, dp{pConst(1)};
    for (int i = 1; i <= k; i++) { np.push_back(pMul(np[i - 1], sq.n)); dp.push_back(isOne(sq.d) ? dp[i - 1] : pMul(dp[i - 1], sq.d)); }
    vector<Poly> byK(k + 1);
    for (auto& t : p) {
      Mono m; int ex = 0;
      for (auto& v : t.first) if (v.first == var) { ex = v.second; if (ex % 2) m.push_back({var, 1}); } else m.push_back(v);
      Poly& q = byK[ex / 2]; auto it = q.find(m); if (it == q.end()) q[m] = t.second; else { it->second += t.second; if (it->second == 0) q.erase(it); }
    }
    Poly r;
    for (int j = 0; j <= k; j++) if (!byK[j].empty()) { Poly t = pMul(byK[j], np[j]); if (!isOne(dp[k - j])) t = pMul(t, dp[k - j]); r = pAdd(r, t); }
    p = r;
    if (!isOne(dp[k])) extraDen = pMul(extraDen, dp[k]);
  }
  throw Terminate{"polynomial reduction does not terminate", true};
}
static void cancelContent(Poly& n, Poly& d);
static RF rfReduce(State& s, RF f) {
  Poly en, ed;
  Poly n = pReduce(s, f.n, en), d = pReduce(s, f.d, ed);
  if (!isOne(ed)) n = pMul(n, ed);
  if (!isOne(en)) d = pMul(d, en);
  Poly q;
  if (!isOne(d) && !n.empty() && d.size() <= 40) {
    if (pDivide(n, d, q)) return {q, pConst(1)};
    cancelContent(n, d);
  }
  return {n, d};
}
static std::unordered_map<unsigned, RF> rfMemo;
static RF toRF(State& s, Z3_ast e) {
  unsigned id = Z3_get_ast_id(Z, e);
  auto it = rfMemo.find(id); if (it != rfMemo.end()) return it->second;
  RF r;
  if (isNum(e)) {
    string q = Z3_get_numeral_string(Z, e);
    r = {pConst(Rat(q)), pConst(1)};
  } else {
    Z3_app p = Z3_to_app(Z, e); unsigned n = Z3_get_app_num_args(Z, p);
    switch (dk(e)) {
      case Z3_OP_ADD: r = toRF(s, argOf(e, 0)); for (unsigned i = 1; i < n; i++) r = rfAdd(r, toRF(s, argOf(e, i)), 1); break;
      case Z3_OP_SUB: r = toRF(s, argOf(e, 0)); for (unsigned i = 1; i < n; i++) r = rfAdd(r, toRF(s, argOf(e, i)), -1); break;
      case Z3_OP_UMINUS: { RF z{Poly(), pConst(1)}; r = rfAdd(z, toRF(s, argOf(e, 0)), -1); break; }
      case Z3_OP_MUL: r = toRF(s, argOf(e, 0)); for (unsigned i = 1; i < n; i++) r = rfMul(r, toRF(s, argOf(e, i))); r = rfReduce(s, r); break;
      case Z3_OP_DIV: { RF b = toRF(s, argOf(e, 1)); if (b.n.empty()) throw Terminate{"division by zero polynomial", true}; r = rfMul(toRF(s, argOf(e, 0)), RF{b.d, b.n}); r = rfReduce(s, r); break; }
      case Z3_OP_UNINTERPRETED: { Poly q; q[Mono{{id, 1}}] = 1; astOfId[id] = e; r = {q, pConst(1)}; break; }
      default: throw Terminate{"term outside rational functions: " + string(Z3_ast_to_string(Z, e)).substr(0, 100), true};
    }
  }
  rfMemo[id] = r;
  return r;
}
// decide ite conditions occurring in e on this path
static Z3_ast splitItes(State& s, Z3_ast e) {
  for (int i = 0; i < 1000; i++) {
    Z3_ast ite = nullptr; std::unordered_set<unsigned> seen; vector<Z3_ast> wl{e};
    while (!wl.empty()) {
      Z3_ast a = wl.back(); wl.pop_back();
      if (!seen.insert(Z3_get_ast_id(Z, a)).second || Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
      Z3_app p = Z3_to_app(Z, a);
      if (dk(a) == Z3_OP_ITE) { ite = a; 
        // prefer an ite whose condition has no ite inside
        wl.clear(); wl.push_back(argOf(a, 0)); seen.clear(); continue; }
      for (unsigned j = 0; j < Z3_get_app_num_args(Z, p); j++) wl.push_back(Z3_get_app_arg(Z, p, j));
    }
    if (!ite) return e;
    bool v = branch(s, argOf(ite, 0));
    Z3_ast from[1] = {ite}, to[1] = {v ? argOf(ite, 1) : argOf(ite, 2)};
    e = keep(Z3_substitute(Z, e, 1, from, to));
  }
  throw Terminate{"too many ite terms", true};
}
static Z3_ast polyToAst(const Poly& p) {
  if (p.empty()) return zero_();
  vector<Z3_ast> terms;
  for (auto& t : p) {
    vector<Z3_ast> fs{numRat(t.second)};
    for (auto& v : t.first) for (int i = 0; i < v.second; i++) fs.push_back(astOfId[v.first]);
    terms.push_back(fs.size() == 1 ? fs[0] : keep(Z3_mk_mul(Z, fs.size(), fs.data())));
  }
  return terms.size() == 1 ? terms[0] : keep(Z3_mk_add(Z, terms.size(), terms.data()));
}

// ---- exact division and square roots of rational functions
static bool mLess(const Mono& a, const Mono& b) {  // lexicographic order of monomials
  for (size_t i = 0;; i++) {
    if (i >= a.size() || i >= b.size()) return i < b.size();
    if (a[i].first != b[i].first) return a[i].first > b[i].first;
    if (a[i].second != b[i].second) return a[i].second < b[i].second;
  }
}
static bool mDivide(const Mono& a, const Mono& b, Mono& r) {
  r.clear(); size_t i = 0;
  for (auto& v : b) {
    while (i < a.size() && a[i].first < v.first) r.push_back(a[i++]);
    if (i >= a.size() || a[i].first != v.first || a[i].second < v.second) return false;
    if (a[i].second > v.second) r.push_back({v.first, a[i].second - v.second});
    i++;
  }
  while (i < a.size()) r.push_back(a[i++]);
  return true;
}
static const Mono& mLead(const Poly& p) { const Mono* m = nullptr; for (auto& t : p) if (!m || mLess(*m, t.first)) m = &t.first; return *m; }
static bool pDivide(Poly a, const Poly& b, Poly& q) {
  q.clear();
  if (b.empty()) return false;
  Mono lb = mLead(b); Rat cb = b.at(lb);
  for (int i = 0; i < 400 && !a.empty(); i++) {
    Mono la = mLead(a), m; if (!mDivide(la, lb, m)) return false;
    Rat c = a.at(la) / cb; q[m] = c;
    Poly t; for (auto& x : b) t[mMul(x.first, m)] = x.second * c;
    a = pAdd(a, t, -1);
  }
  return a.empty();
}
static Mono mContent(const Poly& p) {  // common monomial factor
  std::map<unsigned, int> g; bool first = true;
  for (auto& t : p) {
    std::map<unsigned, int> h; for (auto& v : t.first) h[v.first] = v.second;
    if (first) g = h; else for (auto it = g.begin(); it != g.end();) { auto f = h.find(it->first); if (f == h.end()) it = g.erase(it); else { it->second = std::min(it->second, f->second); ++it; } }
    first = false;
  }
  return Mono(g.begin(), g.end());
}
static Poly pDivM(const Poly& p, const Mono& m) { Poly r; for (auto& t : p) { Mono q; mDivide(t.first, m, q); r[q] = t.second; } return r; }
static void cancelContent(Poly& n, Poly& d) {
  Mono a = mContent(n), b = mContent(d), g; std::map<unsigned, int> y;
  for (auto& v : b) y[v.first] = v.second;
  for (auto& v : a) { auto it = y.find(v.first); if (it != y.end()) g.push_back({v.first, std::min(v.second, it->second)}); }
  if (!g.empty()) { n = pDivM(n, g); d = pDivM(d, g); }
}
static bool smallTerm(Z3_ast e, int& budget) {
  if (--budget < 0) return false;
  if (isNum(e)) return true;
  Z3_app p = Z3_to_app(Z, e);
  for (unsigned i = 0; i < Z3_get_app_num_args(Z, p); i++) if (!smallTerm(Z3_get_app_arg(Z, p, i), budget)) return false;
  return true;
}
// e as c * monomial / monomial, if it is one
static bool monomialForm(State& s, Z3_ast e, Mono& n, Mono& d, Rat& c) {
  int budget = 400;
  if (!smallTerm(e, budget)) return false;
  RF f;
  try { f = rfReduce(s, toRF(s, e)); } catch (Terminate& t) { if (!t.isIncomplete) throw; return false; }
  if (f.n.empty() || f.d.empty() || f.n.size() > 60 || f.d.size() > 60) return false;
  Mono a = mContent(f.n), b = mContent(f.d);
  Poly pn = pDivM(f.n, a), pd = pDivM(f.d, b), q;
  // 1 - sin^2 is cos^2
  for (int side = 0; side < 2; side++) {
    Poly& pp = side ? pd : pn; Mono& mm = side ? b : a;
    std::unordered_set<unsigned> sins;
    for (auto& t : pp) for (auto& v : t.first) { auto f2 = fnOf.find(v.first); if (f2 != fnOf.end() && f2->second.fn == "sin") sins.insert(v.first); }
    for (unsigned v : sins) {
      Poly D = pConst(1); D[Mono{{v, 2}}] = -1;
      Z3_ast cs = fnSym("cos", fnOf[v].arg); unsigned ci = Z3_get_ast_id(Z, cs); astOfId[ci] = cs;
      while (pDivide(pp, D, q)) { pp = q; mm = mMul(mm, Mono{{ci, 2}}); }
    }
  }
  if (pn.size() > 1 || pd.size() > 1) {
    if (pDivide(pn, pd, q) && q.size() == 1) { a = mMul(a, q.begin()->first); c = q.begin()->second; }
    else if (pDivide(pd, pn, q) && q.size() == 1) { b = mMul(b, q.begin()->first); c = 1 / q.begin()->second; }
    else return false;
  } else c = pn.begin()->second / pd.begin()->second;
  // cancel
  std::map<unsigned, int> x; for (auto& v : a) x[v.first] += v.second; for (auto& v : b) x[v.first] -= v.second;
  n.clear(); d.clear();
  for (auto& v : x) if (v.second > 0) n.push_back(v); else if (v.second < 0) d.push_back({v.first, -v.second});
  return true;
}
static Z3_ast monoAst(const Mono& n, const Mono& d, const Rat& c) {
  Z3_ast a = numRat(c), b = one_();
  for (auto& v : n) for (int i = 0; i < v.second; i++) a = rMul(a, astOfId[v.first]);
  for (auto& v : d) for (int i = 0; i < v.second; i++) b = rMul(b, astOfId[v.first]);
  return rDiv(a, b);
}
static bool rootOf(const Rat& c, Rat& r) {
  if (c <= 0) return false;
  auto root = [](const BigInt& v, BigInt& q) { q = boost::multiprecision::sqrt(v); return q * q == v; };
  BigInt a, b;
  if (!root(boost::multiprecision::numerator(c), a) || !root(boost::multiprecision::denominator(c), b)) return false;
  r = Rat(a, b); return true;
}
// the root of a square
static Z3_ast simpleRoot(State& s, Z3_ast x) {
  if (isNum(x)) return nullptr;
  Mono n, d; Rat c, rc;
  if (!monomialForm(s, x, n, d, c)) return nullptr;
  if (n.empty() && d.empty()) return nullptr;
  for (auto* m : {&n, &d}) for (auto& v : *m) { if (v.second % 2) return nullptr; v.second /= 2; }
  if (!rootOf(c, rc)) return nullptr;
  Z3_ast r = monoAst(n, d, rc);
  return branch(s, rLt(r, zero_())) ? rNeg(r) : r;
}
// x if it equals the value of a function (up to sign)
static Z3_ast knownFn(State& s, Z3_ast x) {
  if (fnOf.count(Z3_get_ast_id(Z, x))) return x;
  Mono n, d; Rat c;
  if (!monomialForm(s, x, n, d, c) || !d.empty() || n.size() != 1 || n[0].second != 1 || c != 1) return nullptr;
  return fnOf.count(n[0].first) ? astOfId[n[0].first] : nullptr;
}
// y cannot vanish: it is a product of terms assumed not to, or a sum of squares
static const Poly* numerator(State& s, Z3_ast e, int lim) {
  static std::unordered_map<unsigned, Poly> memo;
  auto it = memo.find(Z3_get_ast_id(Z, e));
  if (it == memo.end()) {
    Poly p; int budget = lim;
    if (smallTerm(e, budget)) {
      try { p = rfReduce(s, toRF(s, e)).n; } catch (Terminate& t) { if (!t.isIncomplete) throw; }
    }
    if (p.size() > 2000) p.clear();
    it = memo.emplace(Z3_get_ast_id(Z, e), p).first;
  }
  return it->second.empty() ? nullptr : &it->second;
}
static bool definite(const Poly& p) {
  auto c = p.find(Mono());
  if (c == p.end()) return false;
  for (auto& t : p) { if ((t.second > 0) != (c->second > 0)) return false; for (auto& v : t.first) if (v.second % 2) return false; }
  return true;
}
static bool knownNonzero(State& s, Z3_ast y) {
  if (isNum(y)) return !isZeroR(y);
  const Poly* n = numerator(s, y, 20000);
  if (!n) return false;
  if (definite(*n)) return true;
  Poly p = *n, q;
  for (auto node = s.pc; node; node = node->up) {
    Z3_ast c = node->c; bool strict = false;
    if (dk(c) == Z3_OP_NOT) {
      c = argOf(c, 0); auto k = dk(c);
      strict = k == Z3_OP_EQ || k == Z3_OP_LE || k == Z3_OP_GE;
    } else strict = dk(c) == Z3_OP_LT || dk(c) == Z3_OP_GT;
    if (!strict || Z3_get_sort_kind(Z, Z3_get_sort(Z, argOf(c, 0))) != Z3_REAL_SORT) continue;
    const Poly* f = numerator(s, rSub(argOf(c, 0), argOf(c, 1)), 2000);
    if (!f || (f->size() == 1 && f->begin()->first.empty())) continue;
    while (pDivide(p, *f, q)) { p = q; if (definite(p)) return true; }
  }
  return false;
}
// ---- numeric search for a counterexample with true function values: the
// solver's models may give functions such as atan impossible values
struct NumEval {
  std::unordered_map<unsigned, double> val; std::unordered_map<unsigned, double> memo; AsgP base; bool bad = false;
  bool boolean(Z3_ast e) {
    unsigned n = Z3_get_app_num_args(Z, Z3_to_app(Z, e));
    auto isR = [](Z3_ast a) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, a)) == Z3_REAL_SORT; };
    auto isB = [](Z3_ast a) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, a)) == Z3_BOOL_SORT; };
    switch (dk(e)) {
      case Z3_OP_TRUE: return true;
      case Z3_OP_FALSE: return false;
      case Z3_OP_AND: for (unsigned i = 0; i < n; i++) if (!boolean(argOf(e, i))) return false; return true;
      case Z3_OP_OR: for (unsigned i = 0; i < n; i++) if (boolean(argOf(e, i))) return true; return false;
      case Z3_OP_NOT: return !boolean(argOf(e, 0));
      case Z3_OP_IMPLIES: return !boolean(argOf(e, 0)) || boolean(argOf(e, 1));
      case Z3_OP_ITE: return boolean(argOf(e, 0)) ? boolean(argOf(e, 1)) : boolean(argOf(e, 2));
      case Z3_OP_LE: return real(argOf(e, 0)) <= real(argOf(e, 1));
      case Z3_OP_LT: return real(argOf(e, 0)) < real(argOf(e, 1));
      case Z3_OP_GE: return real(argOf(e, 0)) >= real(argOf(e, 1));
      case Z3_OP_GT: return real(argOf(e, 0)) > real(argOf(e, 1));
      case Z3_OP_IFF: return boolean(argOf(e, 0)) == boolean(argOf(e, 1));
      case Z3_OP_EQ:
        if (isR(argOf(e, 0))) { double x = real(argOf(e, 0)), y = real(argOf(e, 1)); return fabs(x - y) <= 1e-12 * (fabs(x) + fabs(y)); }
        if (isB(argOf(e, 0))) return boolean(argOf(e, 0)) == boolean(argOf(e, 1));
        break;
      default: break;
    }
    Z3_ast v = evalIn(base, e);
    if (!v || Z3_get_bool_value(Z, v) == Z3_L_UNDEF) { bad = true; return false; }
    return Z3_get_bool_value(Z, v) == Z3_L_TRUE;
  }
  double real(Z3_ast e) {
    unsigned id = Z3_get_ast_id(Z, e);
    auto it = memo.find(id); if (it != memo.end()) return it->second;
    double r = 0;
    if (isNum(e)) r = ratToDouble(e);
    else {
      unsigned n = Z3_get_app_num_args(Z, Z3_to_app(Z, e));
      switch (dk(e)) {
        case Z3_OP_ADD: for (unsigned i = 0; i < n; i++) r += real(argOf(e, i)); break;
        case Z3_OP_SUB: r = real(argOf(e, 0)); for (unsigned i = 1; i < n; i++) r -= real(argOf(e, i)); break;
        case Z3_OP_MUL: r = 1; for (unsigned i = 0; i < n; i++) r *= real(argOf(e, i)); break;
        case Z3_OP_UMINUS: r = -real(argOf(e, 0)); break;
        case Z3_OP_DIV: r = real(argOf(e, 0)) / real(argOf(e, 1)); break;
        case Z3_OP_ITE: r = boolean(argOf(e, 0)) ? real(argOf(e, 1)) : real(argOf(e, 2)); break;
        case Z3_OP_UNINTERPRETED: {
          auto v = val.find(id); if (v != val.end()) { r = v->second; break; }
          auto f = fnOf.find(id);
          if (f == fnOf.end() || !libmConcrete(f->second.fn, real(f->second.arg), f->second.arg2 ? real(f->second.arg2) : 0, r)) bad = true;
          break; }
        default: bad = true;
      }
    }
    if (!std::isfinite(r)) bad = true;
    return memo[id] = r;
  }
};
// one representative of the terms that are equal as rational functions: the
// candidates are found by their value at one point
struct CanonE { double v; RF f; Z3_ast e; };
static vector<CanonE> canonOf;
static Z3_ast canonTerm(State& s, Z3_ast x) {
  int budget = 20000;
  if (isNum(x) || dk(x) == Z3_OP_UNINTERPRETED || !smallTerm(x, budget)) return x;
  static std::unordered_map<unsigned, Z3_ast> memo;
  auto mi = memo.find(Z3_get_ast_id(Z, x)); if (mi != memo.end()) return mi->second;
  Z3_ast r = x;
  try {
    RF f = rfReduce(s, toRF(s, x));
    if (f.n.empty() || f.d.empty() || f.n.size() > 3000 || f.d.size() > 3000) return x;
    NumEval ev; ev.base = s.model;
    for (int id : s.inputs) if (syms[id].k == KR) { uint64_t h = (Z3_get_ast_id(Z, syms[id].e) * 0x9e3779b97f4a7c15ull) >> 40; ev.val[Z3_get_ast_id(Z, syms[id].e)] = 0.25 + 0.5 * (double)h / (1 << 24); }
    double v = ev.real(x);
    if (ev.bad) v = 0;
    bool found = false;
    for (auto& c : canonOf) if (fabs(c.v - v) <= 1e-7 * fabs(v)) {
      RF g = c.f; g.n = pAdd(Poly(), g.n, -1);
      if (rfReduce(s, rfAdd(f, g, 1)).n.empty()) { r = c.e; found = true; break; }
    }
    if (!found) canonOf.push_back({v, f, x});
  } catch (Terminate& t) { if (!t.isIncomplete) throw; return x; }
  memo[Z3_get_ast_id(Z, x)] = r;
  return r;
}
static bool usesFn(Z3_ast e, std::unordered_set<unsigned>& seen) {
  if (!seen.insert(Z3_get_ast_id(Z, e)).second || Z3_get_ast_kind(Z, e) != Z3_APP_AST) return false;
  auto f = fnOf.find(Z3_get_ast_id(Z, e));
  if (f != fnOf.end()) return true;
  Z3_app p = Z3_to_app(Z, e);
  for (unsigned i = 0; i < Z3_get_app_num_args(Z, p); i++) if (usesFn(Z3_get_app_arg(Z, p, i), seen)) return true;
  return false;
}
static bool numericModel(State& s, const vector<Z3_ast>& cs, const AsgP& base, AsgP& out, Z3_ast large) {
  std::unordered_set<unsigned> seen; bool any = large != nullptr;
  for (auto c : cs) if (usesFn(c, seen)) { any = true; break; }
  if (!any) return false;
  // large: a term that should be far from zero, so that the difference shows in floating point
  std::mt19937_64 g(12345); double best = 0; std::unordered_map<unsigned, double> at;
  for (int t = 0; t < (large ? 12000 : 4000); t++) {
    NumEval ev; ev.base = base;
    auto m = std::make_shared<Asg>(); if (base) m->v = base->v;
    double scale = ldexp(1.0, (int)(g() % 9) - 6);
    for (int id : s.inputs) if (syms[id].k == KR) {
      double sc = t % 3 == 2 ? ldexp(1.0, (int)(g() % 9) - 6) : t > 4000 ? ldexp(1.0, (int)(g() % 24) - 20) : scale;
      double x = ((double)(g() % 4097) - 2048) / 2048 * sc;
      if (t % 5 == 4 && g() % 3 == 0) x = 0;
      ev.val[Z3_get_ast_id(Z, syms[id].e)] = x; m->v[id] = numReal(x);
    }
    bool ok = true;
    for (size_t i = cs.size(); i-- > 0 && ok;) { if (!ev.boolean(cs[i]) || ev.bad) ok = false; }
    if (!ok) continue;
    if (!large) { out = m; return true; }
    const double d = std::fabs(ev.real(large));
    if (ev.bad || !(d > best)) continue;
    best = d; out = m; at = ev.val;
    if (best > 0.01) return true;
  }
  if (!(best > 0)) return false;
  // from there uphill
  for (int t = 0; t < 3000 && best < 0.01; t++) {
    NumEval ev; ev.base = base;
    auto m = std::make_shared<Asg>(); m->v = out->v;
    for (int id : s.inputs) if (syms[id].k == KR) {
      double x = at[Z3_get_ast_id(Z, syms[id].e)];
      if (g() % 2) { x *= ldexp(1 + (double)(g() % 1024) / 1024, (int)(g() % 5) - 3); if (g() % 16 == 0) x = -x; x = std::round(x * (1 << 24)) / (1 << 24); }
      ev.val[Z3_get_ast_id(Z, syms[id].e)] = x; m->v[id] = numReal(x);
    }
    bool ok = true;
    for (size_t i = cs.size(); i-- > 0 && ok;) { if (!ev.boolean(cs[i]) || ev.bad) ok = false; }
    if (!ok) continue;
    const double d = std::fabs(ev.real(large));
    if (ev.bad || !(d > best)) continue;
    best = d; out = m; at = ev.val;
  }
  return true;
}
