// symx: a symbolic executor for LLVM IR (clang 18 bitcode), deciding with Z3.
//
// It executes one entry function of a linked bitcode module.  Inputs made with
// the symx_* API (see symx.h) are solver variables; every branch whose outcome
// depends on them is decided by the solver and, when both outcomes are
// feasible, both are followed.  symx_assert, aborts, failed CHECKs, uncaught
// exceptions, invalid memory accesses, division by zero, data races and
// deadlocks are verification conditions: the solver either refutes their
// negation under the path condition or yields a model that is written out as a
// counterexample for native replay.
#include <sys/stat.h>
#include <cfenv>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <z3.h>

#include <boost/multiprecision/cpp_int.hpp>
#include <random>

#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
using std::string;
using std::vector;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef boost::multiprecision::cpp_rational Rat;
typedef boost::multiprecision::cpp_int BigInt;

// ---------------------------------------------------------------- options
struct Options {
  string entry = "symx_main";
  string out = ".";
  string repo = "/repo";
  bool real = false;
  double maxTime = 300;
  uint64_t maxPaths = 1000000;
  uint64_t maxSteps = 400000000ull;  // per path
  unsigned solverTimeout = 20000;    // ms
  unsigned assertTimeout = 120000;   // ms
  unsigned maxViolations = 8; int witnesses = 2;
  int preemptions = -1;
  bool spurious = false; bool atomicSched = false; bool ifconv = false;
  bool verbose = false;
  bool races = true; uint64_t allocLimit = 1ull << 40;  // larger allocations fail
  std::map<string, long long> params;
} opt;

static double nowSec() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch()).count();
}
static double tStart;

// ---------------------------------------------------------------- stats
struct Stats {
  uint64_t steps = 0, paths = 0, completed = 0, infeasible = 0, forks = 0;
  uint64_t queries = 0, qSat = 0, qUnsat = 0, qUnk = 0, cacheHits = 0;
  uint64_t merged = 0; uint64_t asserts = 0, assertQueries = 0, assertUnsat = 0, assertConcrete = 0,
           undecided = 0;
  uint64_t schedPoints = 0; int witnesses = 0;
  double solverTime = 0;
  std::map<string, uint64_t> reach;
  std::map<string, uint64_t> assertLabels;
  std::set<string> functions;
  std::set<string> notes;
  vector<string> incomplete;
} st;
static void incomplete(const string& why) {
  for (auto& s : st.incomplete) if (s == why) return;
  st.incomplete.push_back(why);
  if (opt.verbose) fprintf(stderr, "INCOMPLETE: %s\n", why.c_str());
}

// ---------------------------------------------------------------- Z3
static Z3_context Z;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bvSort(unsigned w) {
  static std::unordered_map<unsigned, Z3_sort> m;
  auto& s = m[w];
  if (!s) { s = w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w);
    Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); }
  return s;
}
static Z3_sort fpSort(unsigned w) {
  static Z3_sort s32 = nullptr, s64 = nullptr;
  if (w == 32) { if (!s32) { s32 = Z3_mk_fpa_sort_32(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s32)); } return s32; }
  if (!s64) { s64 = Z3_mk_fpa_sort_64(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s64)); }
  return s64;
}
static Z3_sort realSort() {
  static Z3_sort s = nullptr;
  if (!s) { s = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); }
  return s;
}
static Z3_ast zTrue, zFalse, zRNE, zRTZ, zRTN, zRTP, zRNA;

enum Kind : uint8_t { KC, KB, KF, KR, KA };
struct Agg;
struct Val {
  Kind k = KC;
  uint16_t w = 0;
  union { uint64_t lo; Z3_ast e; Agg* a; };
  uint64_t hi = 0;
  Val() : lo(0) {}
  Val(unsigned w_, uint64_t v) : w(w_), lo(v) {
    if (w_ < 64) lo &= (1ull << w_) - 1;
  }
  static Val c128(unsigned w, u128 v) {
    Val r; r.w = w;
    if (w < 128) v &= (((u128)1) << w) - 1;
    r.lo = (uint64_t)v; r.hi = (uint64_t)(v >> 64);
    return r;
  }
  static Val expr(Kind k, unsigned w, Z3_ast e) {
    Val r; r.k = k; r.w = w; r.e = e; return r;
  }
  static Val agg(Agg* a);
  Val(const Val& o);
  Val& operator=(const Val& o);
  ~Val();
  bool isC() const { return k == KC; }
  u128 c() const { return ((u128)hi << 64) | lo; }
};
struct Agg { int rc = 0; vector<Val> v; };
inline Val::Val(const Val& o) : k(o.k), w(o.w), lo(o.lo), hi(o.hi) {
  if (k == KA) a->rc++;
}
inline Val& Val::operator=(const Val& o) {
  if (o.k == KA) o.a->rc++;
  if (k == KA && --a->rc == 0) delete a;
  k = o.k; w = o.w; lo = o.lo; hi = o.hi;
  return *this;
}
inline Val::~Val() { if (k == KA && --a->rc == 0) delete a; }
inline Val Val::agg(Agg* a) { Val r; r.k = KA; r.a = a; a->rc++; return r; }

struct Terminate { string why; bool isIncomplete; };
struct Violation { string kind, msg; };
struct AbortTry { string msg; };

static double bitsToD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t dToBits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static float bitsToF(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }
static uint32_t fToBits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }

static Z3_ast numBV(unsigned w, u128 v) {
  if (w == 1) return v ? zTrue : zFalse;
  if (w <= 64) return keep(Z3_mk_unsigned_int64(Z, (uint64_t)v, bvSort(w)));
  char buf[64]; int p = 63; buf[p] = 0;
  if (!v) buf[--p] = '0';
  while (v) { buf[--p] = '0' + (int)(v % 10); v /= 10; }
  return keep(Z3_mk_numeral(Z, buf + p, bvSort(w)));
}
static Rat ratOfDouble(double d) {
  int e; double m = frexp(d, &e);
  BigInt n = (long long)ldexp(m, 53); e -= 53;
  Rat r(n);
  if (e >= 0) r *= Rat(BigInt(1) << e); else r /= Rat(BigInt(1) << -e);
  return r;
}
static Z3_ast numRat(const Rat& r) {
  std::ostringstream ss; ss << r;
  return keep(Z3_mk_numeral(Z, ss.str().c_str(), realSort()));
}
static Z3_ast numReal(double d) {
  if (!std::isfinite(d)) throw Terminate{"non-finite constant in real arithmetic", true};
  return numRat(ratOfDouble(d));
}
static Val mkB(unsigned w, Z3_ast e) {  // normalise numerals to concrete
  if (w == 1) {
    Z3_lbool b = Z3_get_bool_value(Z, e);
    if (b == Z3_L_TRUE) return Val(1, 1);
    if (b == Z3_L_FALSE) return Val(1, 0);
  } else if (Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST) {
    if (w <= 64) { uint64_t v = 0; Z3_get_numeral_uint64(Z, e, &v); return Val(w, v); }
    string s = Z3_get_numeral_string(Z, e);
    u128 v = 0; for (char c : s) v = v * 10 + (c - '0');
    return Val::c128(w, v);
  }
  return Val::expr(KB, w, keep(e));
}
static Z3_ast asBV(const Val& v) {
  switch (v.k) {
    case KC: return numBV(v.w, v.c());
    case KB: return v.e;
    case KF: return keep(Z3_mk_fpa_to_ieee_bv(Z, v.e));
    case KR: throw Terminate{"bit-level use of a real-mode value", true};
    case KA: throw Terminate{"aggregate used as scalar", true};
  }
  return nullptr;
}
static Z3_ast asFP(const Val& v) {
  switch (v.k) {
    case KC: return keep(v.w == 32 ? Z3_mk_fpa_numeral_float(Z, bitsToF((uint32_t)v.lo), fpSort(32))
                                   : Z3_mk_fpa_to_fp_bv(Z, numBV(64, v.lo), fpSort(64)));
    case KB: return keep(Z3_mk_fpa_to_fp_bv(Z, v.e, fpSort(v.w)));
    case KF: return v.e;
    default: throw Terminate{"bad value as FP", true};
  }
}
static Z3_ast asReal(const Val& v) {
  switch (v.k) {
    case KC: return v.w == 32 ? numReal(bitsToF((uint32_t)v.lo)) : numReal(bitsToD(v.lo));
    case KR: return v.e;
    default: throw Terminate{"bit-vector value used as real", true};
  }
}
static Z3_ast asBool(const Val& v) {
  if (v.isC()) return v.lo & 1 ? zTrue : zFalse;
  return v.e;
}

static Z3_ast mkNot(Z3_ast a) {
  if (a == zTrue) return zFalse;
  if (a == zFalse) return zTrue;
  if (Z3_get_ast_kind(Z, a) == Z3_APP_AST &&
      Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, a))) == Z3_OP_NOT)
    return Z3_get_app_arg(Z, Z3_to_app(Z, a), 0);
  return keep(Z3_mk_not(Z, a));
}
static Z3_ast mkAnd(Z3_ast a, Z3_ast b) {
  if (a == zTrue) return b; if (b == zTrue) return a;
  if (a == zFalse || b == zFalse) return zFalse;
  if (a == b) return a;
  Z3_ast x[2] = {a, b}; return keep(Z3_mk_and(Z, 2, x));
}
static Z3_ast mkOr(Z3_ast a, Z3_ast b) {
  if (a == zFalse) return b; if (b == zFalse) return a;
  if (a == zTrue || b == zTrue) return zTrue;
  if (a == b) return a;
  Z3_ast x[2] = {a, b}; return keep(Z3_mk_or(Z, 2, x));
}
static Z3_decl_kind dk(Z3_ast a) {
  if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
  return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, a)));
}
static Z3_ast argOf(Z3_ast a, unsigned i) { return Z3_get_app_arg(Z, Z3_to_app(Z, a), i); }
static bool isNum(Z3_ast a) { return Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST; }

// ite over values
static Val mkIte(Z3_ast c, const Val& a, const Val& b) {
  if (c == zTrue) return a;
  if (c == zFalse) return b;
  if (a.k == KA || b.k == KA) {
    Agg* g = new Agg;
    if (a.k != KA || b.k != KA || a.a->v.size() != b.a->v.size()) { delete g; throw Terminate{"ite on mixed aggregates", true}; }
    for (size_t i = 0; i < a.a->v.size(); i++) g->v.push_back(mkIte(c, a.a->v[i], b.a->v[i]));
    return Val::agg(g);
  }
  if (a.k == KR || b.k == KR) {
    Z3_ast x = asReal(a), y = asReal(b);
    if (x == y) return a;
    return Val::expr(KR, a.w, keep(Z3_mk_ite(Z, c, x, y)));
  }
  if (a.k == KF || b.k == KF) {
    Z3_ast x = asFP(a), y = asFP(b);
    if (x == y) return a;
    return Val::expr(KF, a.w, keep(Z3_mk_ite(Z, c, x, y)));
  }
  if (a.isC() && b.isC() && a.lo == b.lo && a.hi == b.hi) return a;
  if (!a.isC() && !b.isC() && a.e == b.e) return a;
  if (a.w == 1) {
    if (a.isC() && b.isC()) return a.lo ? Val::expr(KB, 1, c) : Val::expr(KB, 1, mkNot(c));
    Z3_ast x = asBool(a), y = asBool(b);
    if (x == zTrue) return Val::expr(KB, 1, mkOr(c, y));
    if (x == zFalse) return mkB(1, mkAnd(mkNot(c), y));
    if (y == zTrue) return Val::expr(KB, 1, mkOr(mkNot(c), x));
    if (y == zFalse) return mkB(1, mkAnd(c, x));
    return Val::expr(KB, 1, keep(Z3_mk_ite(Z, c, x, y)));
  }
  return Val::expr(KB, a.w, keep(Z3_mk_ite(Z, c, asBV(a), asBV(b))));
}

// ---------------------------------------------------------------- integer ops
static i128 sgn(const Val& v) {
  u128 x = v.c(); unsigned w = v.w;
  if (w < 128 && (x >> (w - 1)) & 1) x |= ~((((u128)1) << w) - 1);
  return (i128)x;
}
static bool iteConst(Z3_ast e, Z3_ast& c, Z3_ast& a, Z3_ast& b) {
  if (dk(e) != Z3_OP_ITE) return false;
  c = argOf(e, 0); a = argOf(e, 1); b = argOf(e, 2);
  return isNum(a) && isNum(b);
}
enum Cmp { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
static bool cmpC(Cmp p, const Val& a, const Val& b) {
  switch (p) {
    case EQ: return a.c() == b.c(); case NE: return a.c() != b.c();
    case UGT: return a.c() > b.c(); case UGE: return a.c() >= b.c();
    case ULT: return a.c() < b.c(); case ULE: return a.c() <= b.c();
    case SGT: return sgn(a) > sgn(b); case SGE: return sgn(a) >= sgn(b);
    case SLT: return sgn(a) < sgn(b); case SLE: return sgn(a) <= sgn(b);
  }
  return false;
}
static Val icmp(Cmp p, const Val& a, const Val& b) {
  if (a.isC() && b.isC()) return Val(1, cmpC(p, a, b));
  if (a.k == KR && b.k == KR && (p == EQ || p == NE)) {
    // bit comparison of two real-mode values (moved through integer registers)
    Z3_ast e = keep(Z3_mk_eq(Z, a.e, b.e));
    return Val::expr(KB, 1, p == EQ ? e : mkNot(e));
  }
  if (a.w == 1) {
    Z3_ast x = asBool(a), y = asBool(b);
    switch (p) {
      case EQ: case NE: {
        Z3_ast r;
        if (x == zTrue) r = y; else if (y == zTrue) r = x;
        else if (x == zFalse) r = mkNot(y); else if (y == zFalse) r = mkNot(x);
        else r = keep(Z3_mk_iff(Z, x, y));
        return mkB(1, p == EQ ? r : mkNot(r));
      }
      case UGT: case SLT: return mkB(1, mkAnd(x, mkNot(y)));
      case UGE: case SLE: return mkB(1, mkOr(x, mkNot(y)));
      case ULT: case SGT: return mkB(1, mkAnd(mkNot(x), y));
      case ULE: case SGE: return mkB(1, mkOr(mkNot(x), y));
    }
  }
  if (!a.isC() && !b.isC() && a.k == KB && b.k == KB && a.e == b.e)
    return Val(1, p == EQ || p == UGE || p == ULE || p == SGE || p == SLE);
  // ite(c, k1, k2) <cmp> k
  Z3_ast c, x, y;
  if (a.k == KB && b.isC() && a.w <= 64 && iteConst(a.e, c, x, y)) {
    Val vx = mkB(a.w, x), vy = mkB(a.w, y);
    bool rx = cmpC(p, vx, b), ry = cmpC(p, vy, b);
    if (rx == ry) return Val(1, rx);
    return mkB(1, rx ? c : mkNot(c));
  }
  if (b.k == KB && a.isC() && b.w <= 64 && iteConst(b.e, c, x, y)) {
    Val vx = mkB(a.w, x), vy = mkB(a.w, y);
    bool rx = cmpC(p, a, vx), ry = cmpC(p, a, vy);
    if (rx == ry) return Val(1, rx);
    return mkB(1, rx ? c : mkNot(c));
  }
  Z3_ast ea = asBV(a), eb = asBV(b), r = nullptr;
  switch (p) {
    case EQ: r = Z3_mk_eq(Z, ea, eb); break;
    case NE: Z3_inc_ref(Z, r = Z3_mk_eq(Z, ea, eb)); r = Z3_mk_not(Z, r); break;
    case UGT: r = Z3_mk_bvugt(Z, ea, eb); break;
    case UGE: r = Z3_mk_bvuge(Z, ea, eb); break;
    case ULT: r = Z3_mk_bvult(Z, ea, eb); break;
    case ULE: r = Z3_mk_bvule(Z, ea, eb); break;
    case SGT: r = Z3_mk_bvsgt(Z, ea, eb); break;
    case SGE: r = Z3_mk_bvsge(Z, ea, eb); break;
    case SLT: r = Z3_mk_bvslt(Z, ea, eb); break;
    case SLE: r = Z3_mk_bvsle(Z, ea, eb); break;
  }
  keep(r);
  return Val::expr(KB, 1, r);
}
static Val extractV(const Val& a, unsigned hiB, unsigned loB) {
  unsigned w = hiB - loB + 1;
  if (loB == 0 && w == a.w) return a;
  if (a.isC()) return Val::c128(w, a.c() >> loB);
  Z3_ast e = asBV(a);
  // look through zero-extension / concat
  for (;;) {
    Z3_decl_kind k = dk(e);
    if (k == Z3_OP_CONCAT && Z3_get_app_num_args(Z, Z3_to_app(Z, e)) == 2) {
      Z3_ast h = argOf(e, 0), l = argOf(e, 1);
      unsigned lw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, l));
      if (hiB < lw) { e = l; if (loB == 0 && hiB + 1 == lw) return mkB(w, e); continue; }
      if (loB >= lw) { e = h; loB -= lw; hiB -= lw;
        if (loB == 0 && hiB + 1 == Z3_get_bv_sort_size(Z, Z3_get_sort(Z, h)) && w > 1) return mkB(w, e);
        continue; }
    } else if (k == Z3_OP_ZERO_EXT) {
      Z3_ast l = argOf(e, 0);
      unsigned lw = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, l));
      if (hiB < lw) { e = l; if (loB == 0 && hiB + 1 == lw && w > 1) return mkB(w, e); continue; }
      if (loB >= lw) return Val(w, 0);
    } else if (k == Z3_OP_EXTRACT) {
      Z3_func_decl d = Z3_get_app_decl(Z, Z3_to_app(Z, e));
      unsigned l0 = Z3_get_decl_int_parameter(Z, d, 1);
      e = argOf(e, 0); hiB += l0; loB += l0; continue;
    }
    break;
  }
  Z3_ast c, x, y;
  if (iteConst(e, c, x, y)) {
    unsigned ww = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e));
    return mkIte(c, extractV(mkB(ww, x), hiB, loB), extractV(mkB(ww, y), hiB, loB));
  }
  if (hiB - loB + 1 == Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e)) && w > 1) return mkB(w, e);
  Z3_ast r = keep(Z3_mk_extract(Z, hiB, loB, e));
  if (w == 1) r = keep(Z3_mk_eq(Z, r, keep(Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)))));
  return Val::expr(KB, w, r);
}
static Val zext(const Val& a, unsigned w) {
  if (a.w == w) return a;
  if (a.isC()) return Val::c128(w, a.c());
  if (a.w == 1) return mkIte(a.e, Val(w, 1), Val(w, 0));
  if (a.k == KR) throw Terminate{"zext of real", true};
  return Val::expr(KB, w, keep(Z3_mk_zero_ext(Z, w - a.w, asBV(a))));
}
static Val sext(const Val& a, unsigned w) {
  if (a.w == w) return a;
  if (a.isC()) return Val::c128(w, (u128)sgn(a));
  if (a.w == 1) return mkIte(a.e, Val::c128(w, ~(u128)0), Val(w, 0));
  return Val::expr(KB, w, keep(Z3_mk_sign_ext(Z, w - a.w, asBV(a))));
}
static Val concatV(const Val& h, const Val& l) {
  unsigned w = h.w + l.w;
  if (h.isC() && l.isC() && w <= 128) return Val::c128(w, (h.c() << l.w) | l.c());
  if (h.isC() && h.c() == 0) return zext(l, w);
  return Val::expr(KB, w, keep(Z3_mk_concat(Z, asBV(h), asBV(l))));
}
enum Bin { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR };
static Val binop(Bin op, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (a.isC() && b.isC()) {
    u128 x = a.c(), y = b.c();
    switch (op) {
      case ADD: return Val::c128(w, x + y);
      case SUB: return Val::c128(w, x - y);
      case MUL: return Val::c128(w, x * y);
      case UDIV: if (!y) throw Violation{"division-by-zero", "integer division by zero"}; return Val::c128(w, x / y);
      case UREM: if (!y) throw Violation{"division-by-zero", "integer remainder by zero"}; return Val::c128(w, x % y);
      case SDIV: { if (!y) throw Violation{"division-by-zero", "integer division by zero"};
        i128 p = sgn(a), q = sgn(b); if (q == -1) return Val::c128(w, (u128)0 - x); return Val::c128(w, (u128)(p / q)); }
      case SREM: { if (!y) throw Violation{"division-by-zero", "integer remainder by zero"};
        i128 p = sgn(a), q = sgn(b); if (q == -1) return Val::c128(w, 0); return Val::c128(w, (u128)(p % q)); }
      case SHL: return y >= w ? Val(w, 0) : Val::c128(w, x << (unsigned)y);
      case LSHR: return y >= w ? Val(w, 0) : Val::c128(w, x >> (unsigned)y);
      case ASHR: return Val::c128(w, (u128)(sgn(a) >> (y >= w ? w - 1 : (unsigned)y)));
      case AND: return Val::c128(w, x & y);
      case OR: return Val::c128(w, x | y);
      case XOR: return Val::c128(w, x ^ y);
    }
  }
  if (w == 1) {
    Z3_ast x = asBool(a), y = asBool(b);
    switch (op) {
      case AND: case MUL: return mkB(1, mkAnd(x, y));
      case OR: return mkB(1, mkOr(x, y));
      case XOR: case ADD: case SUB: return icmp(NE, a, b);
      default: throw Terminate{"i1 arithmetic", true};
    }
  }
  // identities
  if (b.isC()) {
    u128 y = b.c();
    u128 ones = w >= 128 ? ~(u128)0 : ((((u128)1) << w) - 1);
    switch (op) {
      case ADD: case SUB: case SHL: case LSHR: case ASHR: case OR: case XOR: if (!y) return a; break;
      case MUL: if (!y) return b; if (y == 1) return a; break;
      case UDIV: case SDIV: if (y == 1) return a; break;
      case AND: if (!y) return b; if (y == ones) return a; break;
      default: break;
    }
    if (op == OR && y == ones) return b;
    if (op == SHL && y >= w) return Val(w, 0);
    if (op == LSHR && y >= w) return Val(w, 0);
  }
  if (a.isC()) {
    u128 x = a.c();
    u128 ones = w >= 128 ? ~(u128)0 : ((((u128)1) << w) - 1);
    switch (op) {
      case ADD: case OR: case XOR: if (!x) return b; break;
      case MUL: if (!x) return a; if (x == 1) return b; break;
      case AND: if (!x) return a; if (x == ones) return b; break;
      default: break;
    }
  }
  if (a.k == KR || b.k == KR) {
    // sign manipulation through integer registers is the only bit op allowed
    throw Terminate{"integer arithmetic on a real-mode value", true};
  }
  if (!a.isC() && !b.isC() && a.k == KB && b.k == KB && a.e == b.e) {
    if (op == SUB || op == XOR) return Val(w, 0);
    if (op == AND || op == OR) return a;
  }
  // arithmetic on two-valued constants folds into the ite
  Z3_ast c, x, y;
  if (a.k == KB && b.isC() && w <= 64 && iteConst(a.e, c, x, y) && !((op == UDIV || op == SDIV || op == UREM || op == SREM) && !b.lo))
    return mkIte(c, binop(op, mkB(w, x), b), binop(op, mkB(w, y), b));
  Z3_ast ea = asBV(a), eb = asBV(b), r = nullptr;
  switch (op) {
    case ADD: r = Z3_mk_bvadd(Z, ea, eb); break;
    case SUB: r = Z3_mk_bvsub(Z, ea, eb); break;
    case MUL: r = Z3_mk_bvmul(Z, ea, eb); break;
    case UDIV: r = Z3_mk_bvudiv(Z, ea, eb); break;
    case SDIV: r = Z3_mk_bvsdiv(Z, ea, eb); break;
    case UREM: r = Z3_mk_bvurem(Z, ea, eb); break;
    case SREM: r = Z3_mk_bvsrem(Z, ea, eb); break;
    case SHL: r = Z3_mk_bvshl(Z, ea, eb); break;
    case LSHR: r = Z3_mk_bvlshr(Z, ea, eb); break;
    case ASHR: r = Z3_mk_bvashr(Z, ea, eb); break;
    case AND: r = Z3_mk_bvand(Z, ea, eb); break;
    case OR: r = Z3_mk_bvor(Z, ea, eb); break;
    case XOR: r = Z3_mk_bvxor(Z, ea, eb); break;
  }
  return Val::expr(KB, w, keep(r));
}

// ---------------------------------------------------------------- symbols
struct Sym {
  string name; Kind k; unsigned w; Z3_ast e;
  bool ranged = false; int64_t lo = 0, hi = 0;
  bool aux = false;   // auxiliary (function value), not an input
};
static vector<Sym> syms;
static std::unordered_map<string, int> symByName;
static std::unordered_map<unsigned, int> symByAst;
static int getSym(const string& name, Kind k, unsigned w) {
  auto it = symByName.find(name);
  if (it != symByName.end()) {
    Sym& s = syms[it->second];
    if (s.k == k && s.w == w) return it->second;
    return getSym(name + "'", k, w);
  }
  Sym s; s.name = name; s.k = k; s.w = w;
  Z3_sort so = k == KB ? bvSort(w) : k == KF ? fpSort(w) : realSort();
  s.e = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, name.c_str()), so));
  syms.push_back(s);
  int id = (int)syms.size() - 1;
  symByName[name] = id;
  symByAst[Z3_get_ast_id(Z, s.e)] = id;
  return id;
}
// symbols occurring in an expression
static const vector<int>& symsOf(Z3_ast e) {
  static std::unordered_map<unsigned, vector<int>> memo;
  auto it = memo.find(Z3_get_ast_id(Z, e));
  if (it != memo.end()) return it->second;
  std::set<int> out; std::unordered_set<unsigned> seen; vector<Z3_ast> wl{e};
  while (!wl.empty()) {
    Z3_ast a = wl.back(); wl.pop_back();
    unsigned id = Z3_get_ast_id(Z, a);
    if (!seen.insert(id).second) continue;
    auto mi = memo.find(id);
    if (mi != memo.end()) { out.insert(mi->second.begin(), mi->second.end()); continue; }
    if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
    Z3_app p = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, p);
    if (n == 0) { auto si = symByAst.find(id); if (si != symByAst.end()) out.insert(si->second); }
    for (unsigned i = 0; i < n; i++) wl.push_back(Z3_get_app_arg(Z, p, i));
  }
  return memo[Z3_get_ast_id(Z, e)] = vector<int>(out.begin(), out.end());
}

// ---------------------------------------------------------------- assignments
struct Asg {
  std::unordered_map<int, Z3_ast> v;
  mutable Z3_model m = nullptr;
  Z3_model model() const {
    if (!m) {
      m = Z3_mk_model(Z); Z3_model_inc_ref(Z, m);
      for (auto& p : v)
        Z3_add_const_interp(Z, m, Z3_get_app_decl(Z, Z3_to_app(Z, syms[p.first].e)), p.second);
    }
    return m;
  }
  ~Asg() { if (m) Z3_model_dec_ref(Z, m); }
};
typedef std::shared_ptr<const Asg> AsgP;

// ---------------------------------------------------------------- memory
static const Val* UNINIT = new Val(8, 0);
struct SymB { const Val* v; uint8_t off; };
enum ObjKind : uint8_t { OGlobal, OConst, OHeap, OStack, OFunc, OExtern };
struct Obj {
  uint32_t size = 0; ObjKind kind = OHeap; bool freed = false;
  uint8_t allocKind = 0;  // 0 malloc, 1 new, 2 new[]
  vector<uint8_t> d;
  vector<SymB> sh;  // empty: all concrete
};
struct Chunk { std::shared_ptr<Obj> o[64]; };
static const uint64_t BASE = 1ull << 24;
static uint64_t addrOf(uint32_t id, uint64_t off = 0) { return ((uint64_t)id << 32) + BASE + off; }

struct Mem {
  vector<std::shared_ptr<Chunk>> ch;
  uint32_t next = 1;
  Obj* get(uint32_t id) const {
    uint32_t c = id >> 6;
    if (c >= ch.size() || !ch[c]) return nullptr;
    return ch[c]->o[id & 63].get();
  }
  std::shared_ptr<Obj>& slot(uint32_t id) {
    uint32_t c = id >> 6;
    if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = std::make_shared<Chunk>();
    else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
    return ch[c]->o[id & 63];
  }
  Obj* mut(uint32_t id) {
    auto& s = slot(id);
    if (!s) return nullptr;
    if (s.use_count() > 1) s = std::make_shared<Obj>(*s);
    return s.get();
  }
  uint32_t alloc(uint64_t size, ObjKind k, bool uninit) {
    if (size > (512u << 20)) throw Terminate{"allocation larger than 512 MB", true};
    uint32_t id = next++;
    auto o = std::make_shared<Obj>();
    o->size = (uint32_t)size; o->kind = k; o->d.assign(size, 0);
    if (uninit) o->sh.assign(size, SymB{UNINIT, 0});
    slot(id) = o;
    return id;
  }
};

// ---------------------------------------------------------------- program
struct Opnd { int reg = -1; Val c; };
struct GepIdx { Opnd o; int64_t scale; };
struct CInst {
  Instruction* I = nullptr;
  unsigned op = 0; int dst = -1;
  unsigned w = 0;         // result width
  vector<Opnd> ops;
  // gep
  int64_t goff = 0; vector<GepIdx> gidx;
  int bb[2] = {-1, -1};
  vector<std::pair<Val, int>> cases;
  int pred = 0; Type* ty = nullptr;
  Function* callee = nullptr; int handler = -1; unsigned iid = 0; int specFail = 0, specOk = 0;
};
struct PhiE { int dst; bool ptr = false; vector<std::pair<int, Opnd>> in; };
struct CBB { int start; vector<PhiE> phis; bool seen = false; };
struct CFunc {
  Function* F; int nregs = 0; vector<CInst> code; vector<CBB> bbs;
  DenseMap<const BasicBlock*, int> bbIdx;
  DenseMap<const Value*, int> regIdx;
  string shortName; bool repo = false; vector<int> ipdom;
  vector<vector<int>> liveIn;  // per block: registers read in it or after it (phis count for the predecessor)
};
struct MutexInfo { int owner = -1; int count = 0; bool recursive = false; vector<uint32_t> vc; };
struct ExcInfo { uint64_t tinfo = 0, dtor = 0; int refs = 0; };
// what an aborted symx_try puts back
struct Snap { Mem mem; std::map<uint64_t, MutexInfo> mtx; std::map<uint64_t, ExcInfo> exc; vector<uint64_t> caught; uint64_t curExc, heapLive; };
struct Frame {
  CFunc* f; int pc = 0; int prev = -1; vector<Val> regs; vector<uint32_t> allocas;
  bool tryMarker = false; bool isThreadRoot = false; bool ctorRoot = false;
  vector<Val> va; std::shared_ptr<const Snap> snap;
};
typedef std::shared_ptr<Frame> FrameP;

enum TStatus : uint8_t { TRun, TLock, TCond, TCondTimed, TJoin, TFutex, TSettle, TDone };
struct Thread {
  vector<FrameP> stack; TStatus st = TRun;
  uint64_t waitAddr = 0, mtxAddr = 0; uint64_t aux = 0;
  int wake = 0;         // result for timed waits: 0 notified, 1 timeout
  bool atSched = false; // this instruction's scheduling point was already taken
  int joinTarget = -1; bool detached = false;
  vector<uint32_t> vc;  // vector clock
  std::map<const GlobalVariable*, uint64_t> tls;
  uint64_t ret = 0;
};
struct PCNode { Z3_ast c; std::shared_ptr<PCNode> up; unsigned n;
  ~PCNode() { // avoid deep recursion
    auto p = std::move(up);
    while (p && p.use_count() == 1) { auto q = std::move(p->up); p = std::move(q); } } };
struct RaceCell { int wTid = -1; uint32_t wClk = 0; std::map<int, uint32_t> rd; };

struct State {
  uint64_t id = 0;
  vector<Thread> th; int cur = 0;
  Mem mem;
  std::shared_ptr<PCNode> pc; unsigned npc = 0;
  vector<unsigned> known;  // ids of conditions known to hold (implied)
  AsgP model;              // satisfies pc (with 0-completion) when modelOk
  bool modelOk = true;
  std::map<string, int> names;
  vector<int> inputs;      // symbols of this path
  std::map<uint64_t, MutexInfo> mtx;
  std::map<uint64_t, ExcInfo> exc; vector<uint64_t> caught; uint64_t curExc = 0;
  uint64_t steps = 0, heapLive = 0; int preempt = 0;
  struct SchedEv { uint32_t seq; char kind; int a, b; }; vector<SchedEv> sched; uint32_t schedSeq = 0;
  bool maybe = false;      // some branch was taken without a solver verdict
  std::set<unsigned> defs; // real-mode definitions already in pc
  std::map<uint64_t, RaceCell> races;
  std::map<uint64_t, vector<uint32_t>> syncvc;
  vector<string> events;
  Thread& t() { return th[cur]; }
  Frame& top() {
    auto& f = th[cur].stack.back();
    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
    return *f;
  }
};
typedef std::unique_ptr<State> StateP;
static vector<StateP> worklist;
static uint64_t nextStateId = 1;

static LLVMContext llctx;
static std::unique_ptr<Module> mod;
static const DataLayout* DL;
static DenseMap<const GlobalValue*, uint64_t> globalAddr;
static std::unordered_map<uint32_t, Function*> funcById;
static std::unordered_map<uint64_t, const GlobalVariable*> tlsByAddr;
static std::unordered_map<string, uint64_t> extraGlobals;
static std::unordered_map<uint64_t, string> gvNameByAddr;

#include "symx_solver.inc"
#include "symx_exec.inc"
