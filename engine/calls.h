// Calls: intrinsics, handlers for external functions, stubs.
#pragma once
static string readStr(State& s, uint64_t a) {
  string r;
  for (int i = 0; i < 4096; i++) { Val c = loadBytes(s, a + i, 1, 8); if (!c.conc() || !c.c) break; r += (char)c.c; }
  return r;
}
static string valStr(State& s, const Val& v) {
  char buf[64];
  if (v.conc()) { snprintf(buf, 64, "%llx", (unsigned long long)v.c); return buf; }
  if (v.k == Val::Real) return "real";
  if (!s.model) return "?";
  if (v.k == Val::Bool) { z3::expr r = s.model->eval(toBool(v), true).simplify(); return r.is_true() ? "1" : "0"; }
  z3::expr r = s.model->eval(toBV(v), true).simplify();
  uint64_t c;
  if (r.is_numeral_u64(c)) { snprintf(buf, 64, "%llx", (unsigned long long)c); return buf; }
  return "?";
}
static double realModel(const z3::expr& e, const z3::model& m) {
  z3::expr r = m.eval(e, true).simplify();
  if (r.is_algebraic()) { z3::expr a = r.algebraic_lower(20); r = a; }
  if (r.is_numeral()) {
    string d = Z3_get_numeral_decimal_string(*Z, r, 25);
    if (!d.empty() && d.back() == '?') d.pop_back();
    return atof(d.c_str());
  }
  return NAN;
}
static vector<std::pair<string, string>> modelInputs(State& s, const z3::model* m) {
  vector<std::pair<string, string>> r;
  for (auto& in : s.inputs) {
    char buf[64];
    if (in.v.conc()) { snprintf(buf, 64, "%llx", (unsigned long long)in.v.c); r.push_back({in.name, buf}); continue; }
    if (in.v.k == Val::Real) {
      double d = m ? realModel(in.v.p->e, *m) : 0;
      if (!(d >= in.lo)) d = in.lo; if (d > in.hi) d = in.hi;
      if (in.bits == 32) { float f = (float)d; if (f < in.lo) f = std::nextafterf(f, 1e30f); if (f > in.hi) f = std::nextafterf(f, -1e30f); snprintf(buf, 64, "%llx", (unsigned long long)bitsF(f)); }
      else snprintf(buf, 64, "%llx", (unsigned long long)bitsD(d));
      r.push_back({in.name, buf}); continue;
    }
    uint64_t c = 0;
    if (m) {
      if (in.v.k == Val::Bool) c = m->eval(toBool(in.v), true).is_true();
      else { z3::expr e = m->eval(toBV(in.v), true).simplify(); if (!e.is_numeral_u64(c)) c = 0; }
    }
    snprintf(buf, 64, "%llx", (unsigned long long)c);
    r.push_back({in.name, buf});
  }
  return r;
}
// e (or its negation) with every inequality between reals strengthened by d
static z3::expr tighten(const z3::expr& e, bool pos, double d) {
  if (e.is_app()) {
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_NOT) return tighten(e.arg(0), !pos, d);
    if (k == Z3_OP_AND || k == Z3_OP_OR) {
      z3::expr_vector v(*Z);
      for (unsigned i = 0; i < e.num_args(); i++) v.push_back(tighten(e.arg(i), pos, d));
      return (k == Z3_OP_AND) == pos ? z3::mk_and(v) : z3::mk_or(v);
    }
    if ((k == Z3_OP_LE || k == Z3_OP_LT || k == Z3_OP_GE || k == Z3_OP_GT) && e.arg(0).is_real()) {
      bool less = (k == Z3_OP_LE || k == Z3_OP_LT) == pos;
      return less ? e.arg(0) + realNum(d) <= e.arg(1) : e.arg(0) >= e.arg(1) + realNum(d);
    }
  }
  return pos ? e : !e;
}
// A counterexample of the over-approximation that is likelier to reproduce: away from the limits of its path, and
// with the sine and cosine of its angles.
static std::shared_ptr<z3::model> robustModel(State& s, const z3::expr& F, std::shared_ptr<z3::model> m) {
  vector<z3::expr> base;
  for (double d : {0.3, 0.1, 0.03, 0.01, 1e-3, 1e-4, 1e-6, 0.0}) {
    vector<z3::expr> as;
    for (auto& e : s.pc) as.push_back(d > 0 ? tighten(e, true, d) : e);
    as.push_back(d > 0 ? tighten(F, true, d) : F);
    if (d == 0) { base = as; break; }
    std::shared_ptr<z3::model> mm;
    S.queries++;
    R3 r = runTactic(as, z3::tactic(*Z, "smt"), 1000, mm);
    if (r == UNK) r = runTactic(as, z3::tactic(*Z, "qfnra-nlsat"), 1000, mm);
    if (r == SAT) { m = mm; base = as; break; }
  }
  double tol = 1e-9;
  for (auto& t : s.trig) {
    string id = std::to_string(t.id());
    z3::expr sn = Z->real_const(("sin!" + id).c_str()), cs = Z->real_const(("cos!" + id).c_str());
    double a = realModel(t, *m), x = std::atan2(realModel(sn, *m), realModel(cs, *m));
    if (!(a == a) || !(x == x)) continue;
    double k = std::floor((a - x) / (2 * M_PI) + 0.5);
    for (double dk : {0.0, 1.0, -1.0, -k}) {
      double y = x + 2 * M_PI * (k + dk);
      vector<z3::expr> as = base;
      z3::expr e = realNum(tol);
      as.push_back(t <= realNum(y) + e && t >= realNum(y) - e && cs <= realNum(std::cos(y)) + e && cs >= realNum(std::cos(y)) - e && sn <= realNum(std::sin(y)) + e && sn >= realNum(std::sin(y)) - e);
      std::shared_ptr<z3::model> mm;
      S.queries++;
      R3 r = runTactic(as, z3::tactic(*Z, "smt"), 2000, mm);
      if (r == UNK) r = runTactic(as, z3::tactic(*Z, "qfnra-nlsat"), 2000, mm);
      if (r == SAT) { m = mm; base = as; break; }
    }
    tol *= 10;
  }
  return m;
}
static void recordViolation(State& s, const string& kind, const string& msg, std::shared_ptr<z3::model> m, const z3::expr* F = nullptr) {
  if (O.logic == "real" && m) m = robustModel(s, F ? *F : Z->bool_val(true), m);
  VRec v; v.kind = kind; v.msg = msg; v.loc = locOf(s); v.abstracted = s.abstracted;
  v.in = modelInputs(s, m.get());
  viols.push_back(v);
  if (O.verbose) {
    std::cerr << "VIOLATION " << kind << ": " << msg << " @ " << v.loc << "\n";
    for (auto& p : v.in) std::cerr << "   " << p.first << " = " << p.second << "\n";
  }
  if (viols.size() >= O.maxViol) stopAll = true;
}
static string uniq(State& s, const string& n) { return n + "#" + std::to_string(s.inputs.size()); }

static void checkCond(State& s, const Val& c, const string& msg) {
  S.checks++;
  if (c.conc()) {
    if (c.c & 1) { S.checkConc++; return; }
    // path feasible?
    if (!s.modelOk) {
      std::shared_ptr<z3::model> m; R3 r = query(s, Z->bool_val(true), m);
      if (r == UNSAT) throw PathEnd{"infeasible"};
      if (r == UNK) { undecided.push_back("unknown: " + msg); throw PathEnd{"unknown"}; }
      s.model = m; s.modelOk = true;
    }
    recordViolation(s, "check", msg, s.model);
    throw PathEnd{"violation"};
  }
  z3::expr F = exF(c), T = toBool(c);
  std::shared_ptr<z3::model> m;
  R3 r;
  if (modelTrue(s, F)) { r = SAT; m = s.model; }
  else r = query(s, F, m);
  if (r == UNSAT) { S.checkUnsat++; return; }
  if (r == UNK) { S.checkUnk++; undecided.push_back("unknown: " + msg); if (O.verbose) std::cerr << "UNKNOWN check " << msg << "\n"; addPc(s, T); s.modelOk = false; return; }
  recordViolation(s, "check", msg, m, &F);
  // continue on the side where it holds, if any
  if (stopAll) throw PathEnd{"violation"};
  assume(s, T);
}

static Val bvMin(State& s, CmpInst::Predicate p, const Val& a, const Val& b) { Val c = icmp(s, p, a, b); return selectV(s, c, a, b, false); }

static Val intrin(State& s, const DI& d, const IntrinsicInst* ii, const vector<Val>& a) {
  unsigned w = d.w;
  switch (ii->getIntrinsicID()) {
    case Intrinsic::smax: return bvMin(s, CmpInst::ICMP_SGT, a[0], a[1]);
    case Intrinsic::smin: return bvMin(s, CmpInst::ICMP_SLT, a[0], a[1]);
    case Intrinsic::umax: return bvMin(s, CmpInst::ICMP_UGT, a[0], a[1]);
    case Intrinsic::umin: return bvMin(s, CmpInst::ICMP_ULT, a[0], a[1]);
    case Intrinsic::abs: { Val n = intBin(s, Instruction::Sub, Val::mk(0, w), a[0], w); return selectV(s, icmp(s, CmpInst::ICMP_SLT, a[0], Val::mk(0, w)), n, a[0], false); }
    case Intrinsic::fabs: return fabsV(a[0]);
    case Intrinsic::fmuladd: return fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[1], w), a[2], w);
    case Intrinsic::floor: return froundV(s, a[0], 1);
    case Intrinsic::ceil: return froundV(s, a[0], 2);
    case Intrinsic::trunc: return froundV(s, a[0], 0);
    case Intrinsic::round: return froundV(s, a[0], 3);
    case Intrinsic::rint: case Intrinsic::nearbyint: return froundV(s, a[0], 4);
    case Intrinsic::sqrt: {
      if (a[0].conc()) return concFP(w == 32 ? (double)std::sqrt(asF(a[0].c)) : std::sqrt(concD(a[0])), w);
      if (isReal(a[0])) return realSqrt(s, a[0]);
      return mkFP(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, RNE(), toFP(a[0], w))));
    }
    case Intrinsic::copysign: {
      if (isReal(a[0]) || isReal(a[1])) {
        Val m = fabsV(a[0]); bool neg = isReal(a[1]) ? decide(s, realCmp(s, CmpInst::FCMP_OLT, a[1], Val::mk(0, w))) : (a[1].c >> (w - 1)) & 1;
        return neg ? fnegV(m) : m;
      }
      if (a[0].conc() && a[1].conc()) { uint64_t sb = 1ULL << (w - 1); return Val::mk((a[0].c & ~sb) | (a[1].c & sb), w); }
      z3::expr sb = Z->bv_val((uint64_t)1 << (w - 1), w);
      return mkBV((toBV(a[0]) & ~sb) | (toBV(a[1]) & sb));
    }
    case Intrinsic::minnum: case Intrinsic::maxnum: {
      bool mx = ii->getIntrinsicID() == Intrinsic::maxnum;
      Val nan0 = fcmp(s, CmpInst::FCMP_UNO, a[0], a[0]), nan1 = fcmp(s, CmpInst::FCMP_UNO, a[1], a[1]);
      if (decide(s, nan0)) return a[1];
      if (decide(s, nan1)) return a[0];
      return decide(s, fcmp(s, mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a[0], a[1])) ? a[0] : a[1];
    }
    case Intrinsic::expect: return a[0];
    case Intrinsic::is_constant: return Val::mk(0, 1);
    case Intrinsic::objectsize: return Val::mk(~0ULL, w);
    case Intrinsic::ctpop: {
      if (a[0].conc()) return Val::mk(__builtin_popcountll(a[0].c), w);
      z3::expr x = toBV(a[0]), r = Z->bv_val(0, w);
      for (unsigned i = 0; i < w; i++) r = r + z3::zext(x.extract(i, i), w - 1);
      return mkBV(r);
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      bool lz = ii->getIntrinsicID() == Intrinsic::ctlz;
      if (a[0].conc()) {
        uint64_t x = a[0].c; unsigned n = 0;
        if (lz) { for (int i = w - 1; i >= 0 && !(x >> i & 1); i--) n++; } else { for (unsigned i = 0; i < w && !(x >> i & 1); i++) n++; }
        return Val::mk(n, w);
      }
      z3::expr x = toBV(a[0]), r = Z->bv_val((uint64_t)w, w);
      if (lz) { for (unsigned i = 0; i < w; i++) r = z3::ite(x.extract(i, i) == Z->bv_val(1, 1), Z->bv_val((uint64_t)(w - 1 - i), w), r); }
      else { for (int i = w - 1; i >= 0; i--) r = z3::ite(x.extract(i, i) == Z->bv_val(1, 1), Z->bv_val((uint64_t)i, w), r); }
      return mkBV(r);
    }
    case Intrinsic::bswap: {
      if (a[0].conc()) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a[0].c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return Val::mk(r, w); }
      z3::expr x = toBV(a[0]); z3::expr r = x.extract(7, 0);
      for (unsigned i = 1; i < w / 8; i++) r = z3::concat(r, x.extract(8 * i + 7, 8 * i));
      return mkBV(r);
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool l = ii->getIntrinsicID() == Intrinsic::fshl;
      z3::expr sh = z3::urem(toBV(a[2]), Z->bv_val((uint64_t)w, w));
      z3::expr cc = z3::concat(toBV(a[0]), toBV(a[1]));
      z3::expr s2 = z3::zext(sh, w);
      z3::expr r = l ? z3::shl(cc, s2).extract(2 * w - 1, w) : z3::lshr(cc, s2).extract(w - 1, 0);
      return mkBV(r.simplify());
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      unsigned ww = a[0].w; auto id = ii->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      unsigned op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      Val r = intBin(s, op, a[0], a[1], ww);
      if (a[0].conc() && a[1].conc() && ww <= 64) {
        __int128 x = sg ? (__int128)sextw(a[0].c, ww) : (__int128)a[0].c, y = sg ? (__int128)sextw(a[1].c, ww) : (__int128)a[1].c;
        __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
        __int128 rr = sg ? (__int128)sextw(r.c, ww) : (__int128)r.c;
        return mkAgg({r, Val::mk(z != rr, 1)});
      }
      unsigned W2 = 2 * ww;
      z3::expr x = sg ? z3::sext(toBV(a[0]), ww) : z3::zext(toBV(a[0]), ww), y = sg ? z3::sext(toBV(a[1]), ww) : z3::zext(toBV(a[1]), ww);
      z3::expr f = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
      z3::expr rr = sg ? z3::sext(toBV(r), ww) : z3::zext(toBV(r), ww); (void)W2;
      return mkAgg({r, mkBool((f != rr).simplify())});
    }
    case Intrinsic::usub_sat: { Val c = icmp(s, CmpInst::ICMP_UGT, a[0], a[1]); return selectV(s, c, intBin(s, Instruction::Sub, a[0], a[1], w), Val::mk(0, w), false); }
    case Intrinsic::eh_typeid_for: return Val::mk(a[0].c & 0x7fffffff, 32);
    case Intrinsic::stacksave: return Val::mk(0, 64);
    case Intrinsic::ptrmask: return intBin(s, Instruction::And, a[0], a[1], 64);
    case Intrinsic::is_fpclass: {
      unsigned m = a[1].c; unsigned ww = a[0].w;
      if (isReal(a[0])) {  // a finite number
        unsigned fm = m & 0x1f8; Val z = Val::mk(0, ww);
        if (fm == 0x1f8) return Val::mk(1, 1);
        if (!fm) return Val::mk(0, 1);
        if (fm == 96) return realCmp(s, CmpInst::FCMP_OEQ, a[0], z);
        if (fm == 56 || fm == 24) return realCmp(s, CmpInst::FCMP_OLT, a[0], z);
        if (fm == 448) return realCmp(s, CmpInst::FCMP_OGE, a[0], z);
        if (fm == 408 || fm == 264) return realCmp(s, CmpInst::FCMP_ONE, a[0], z);
        throw Unsupported{"is_fpclass real"};
      }
      z3::expr f = toFP(a[0], ww); z3::expr r = Z->bool_val(false);
      z3::expr neg = toBV(a[0]).extract(ww - 1, ww - 1) == Z->bv_val(1, 1);
      auto cl = [&](Z3_ast (*mk)(Z3_context, Z3_ast), int bn, int bp) {
        z3::expr c(*Z, mk(*Z, f));
        if (m & bn) r = r || (c && neg);
        if (m & bp) r = r || (c && !neg);
      };
      if (m & 3) r = r || f.mk_is_nan();
      cl(Z3_mk_fpa_is_infinite, 4, 512); cl(Z3_mk_fpa_is_normal, 8, 256); cl(Z3_mk_fpa_is_subnormal, 16, 128); cl(Z3_mk_fpa_is_zero, 32, 64);
      return mkBool(r.simplify());
    }
    default: throw Unsupported{"intrinsic " + ii->getCalledFunction()->getName().str()};
  }
}

static void callFn(State& s, const DI& d, Fn* f, const vector<Val>& a);
static void doCall(State& s, const DI& d) {
  Frame& fr = s.st.back();
  vector<Val> a;
  Fn* f = d.callee;
  auto* cb = cast<CallBase>(d.I);
  if (!f) {
    if (isa<InlineAsm>(cb->getCalledOperand())) { fr.ip++; return; }
    for (size_t i = 0; i + 1 < d.ops.size(); i++) a.push_back(get(fr, d.ops[i]));
    uint64_t p = concretize(s, get(fr, d.ops.back()));
    auto it = faddr.find(p);
    if (it == faddr.end()) throw Violation{"call", "call through an invalid function pointer"};
    f = it->second;
  } else for (auto& o : d.ops) a.push_back(get(fr, o));
  if (f->kind == FK::Unresolved) resolve(f);
  if (f->kind != FK::Body) for (auto& v : a) if (wideBool(v)) v = Val::mk(decide(s, v), v.w);
  // byval arguments: copy
  if (f->kind == FK::Body) {
    for (unsigned i = 0; i < a.size() && i < cb->arg_size(); i++) {
      if (cb->isByValArgument(i)) {
        Type* t = cb->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(t);
        uint64_t src = concretize(s, a[i]);
        uint64_t c = allocObj(s, n, 's', false, "byval");
        memCopy(s, c, src, n);
        a[i] = Val::mk(c, 64);
      }
    }
  }
  callFn(s, d, f, a);
}
static void callFn(State& s, const DI& d, Fn* f, const vector<Val>& a) {
  Frame& fr = s.st.back();
  switch (f->kind) {
    case FK::Body: pushFrame(s, f, a); return;
    case FK::Handler: {
      Val r; f->execs++;
      size_t depth = s.st.size(); (void)depth;
      if (f->h(s, d, a, r)) retTo(s, r, r.k != Val::None);
      return;
    }
    case FK::Intrinsic: {
      auto* ii = cast<IntrinsicInst>(d.I);
      switch (ii->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
          uint64_t n = concretize(s, a[2]);
          if (n) { uint64_t dst = concretize(s, a[0]), src = concretize(s, a[1]); memCopy(s, dst, src, n); }
          fr.ip++; return;
        }
        case Intrinsic::memset: {
          uint64_t n = concretize(s, a[2]);
          if (n) {
            uint64_t dst = concretize(s, a[0]), off; Obj& o = checkAccess(s, dst, n, true, off);
            if (a[1].conc()) { o.split(off, n); for (uint64_t i = 0; i < n; i++) { o.b[off + i] = a[1].c; o.st[off + i] = 1; } }
            else for (uint64_t i = 0; i < n; i++) o.store(off + i, a[1]);
          }
          fr.ip++; return;
        }
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: throw Violation{"abort", "trap"};
        case Intrinsic::stackrestore: fr.ip++; return;
        default: break;
      }
      Val r;
      bool vec = false; for (auto& v : a) if (v.k == Val::Agg) vec = true;
      if (vec) {
        size_t n = 0; for (auto& v : a) if (v.k == Val::Agg) n = v.p->agg->size();
        vector<Val> out; DI d2 = d; d2.w = widthOf(cast<VectorType>(d.ty)->getElementType());
        for (size_t i = 0; i < n; i++) { vector<Val> e; for (auto& v : a) e.push_back(v.k == Val::Agg ? (*v.p->agg)[i] : v); out.push_back(intrin(s, d2, ii, e)); }
        r = mkAgg(out);
      } else r = intrin(s, d, ii, a);
      Frame& f2 = s.st.back();
      if (d.dst >= 0) f2.regs[d.dst] = r;
      f2.ip++;
      return;
    }
    case FK::Stub: {
      stubsUsed.insert(demangle(f->F->getName().str()));
      auto* cb = cast<CallBase>(d.I);
      Val r;
      if (cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet)) {
        // returns an object by value: leave an empty std::string there
        uint64_t p = concretize(s, a[0]);
        auto* o = findObj(s, p);
        if (o && (*o)->size - (p - (*o)->base) >= 32) {
          storeConc(s, p, Type::getInt64Ty(M->getContext()), Val::mk(p + 16, 64));
          storeConc(s, p + 8, Type::getInt64Ty(M->getContext()), Val::mk(0, 64));
          storeConc(s, p + 16, Type::getInt8Ty(M->getContext()), Val::mk(0, 8));
        }
      }
      if (d.dst >= 0) {
        if (d.ty->isPointerTy()) r = a.empty() ? Val::mk(0, 64) : a[0];
        else r = Val::mk(0, d.w);
      }
      retTo(s, r, r.k != Val::None);
      return;
    }
    default: throw Unsupported{"external function " + demangle(f->F->getName().str())};
  }
}

static double m1(const string& n, double x) {
  static const std::map<string, double (*)(double)> t{{"sin", ::sin}, {"cos", ::cos}, {"tan", ::tan}, {"atan", ::atan}, {"asin", ::asin}, {"acos", ::acos}, {"exp", ::exp}, {"log", ::log}, {"log2", ::log2}, {"log10", ::log10}, {"sinh", ::sinh}, {"cosh", ::cosh}, {"tanh", ::tanh}, {"cbrt", ::cbrt}, {"exp2", ::exp2}, {"log1p", ::log1p}, {"expm1", ::expm1}, {"tgamma", ::tgamma}, {"lgamma", ::lgamma}};
  auto it = t.find(n); return it == t.end() ? NAN : it->second(x);
}
static float m1f(const string& n, float x) {
  static const std::map<string, float (*)(float)> t{{"sin", ::sinf}, {"cos", ::cosf}, {"tan", ::tanf}, {"atan", ::atanf}, {"asin", ::asinf}, {"acos", ::acosf}, {"exp", ::expf}, {"log", ::logf}, {"log2", ::log2f}, {"log10", ::log10f}};
  auto it = t.find(n); return it == t.end() ? NAN : it->second(x);
}
// Abstract single-argument function: fresh real constrained to a range.
static Val realFun(State& s, const string& n, const Val& v) {
  RV x = toR(v);
  s.abstracted = true;
  keep.push_back(x.e);
  if (n == "sin" || n == "cos") return realTrig(s, v, n == "cos");
  { Val o; if (realTaylor(s, n, v, o)) return o; }
  if (n == "exp" && x.hi < 300) {
    z3::expr t = Z->real_const(("exp!" + std::to_string(x.e.id())).c_str());
    double lo = std::exp(x.lo) * 0.999999, hi = std::exp(x.hi) * 1.000001;
    addDef(s, t >= realNum(lo) && t <= realNum(hi) && z3::implies(x.e >= 0, t >= 1 + x.e) && z3::implies(x.e <= 0, t <= 1));
    return mkReal(v.w, t, up(hi * (std::expm1(x.err) + 4 * unitOf(v.w))), lo, hi);
  }
  throw Unsupported{"real-mode " + n};
}

static void setupHandlers() {
  auto& H = handlers;
  auto param = [](State& s, const vector<Val>& a) { return readStr(s, concretize(s, a[0])); };
  H["rs_sym"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) {
    string n = param(s, a); unsigned b = a[1].c;
    Val v = b == 1 ? mkBool(Z->bool_const(uniq(s, n).c_str())) : mkBV(Z->bv_const(uniq(s, n).c_str(), b));
    s.inputs.push_back({n, 's', b, v});
    r = zextV(v, 64); return true;
  };
  H["rs_int"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) {
    string n = param(s, a); int64_t lo = (int64_t)a[1].c, hi = (int64_t)a[2].c;
    if (!a[1].conc() || !a[2].conc()) throw Unsupported{"rs_int bounds must be concrete"};
    if (lo == hi) { Val v = Val::mk(lo, 64); s.inputs.push_back({n, 's', 64, v}); r = v; return true; }
    // smallest width representation keeps the solver terms small
    unsigned b = 1; uint64_t span = (uint64_t)hi - (uint64_t)lo; while (b < 64 && (span >> b)) b++;
    z3::expr x = Z->bv_const(uniq(s, n).c_str(), b);
    Val v = mkBV((b < 64 ? z3::zext(x, 64 - b) : x) + Z->bv_val((uint64_t)lo, 64));
    if (lo == 0) v = mkBV(b < 64 ? z3::zext(x, 64 - b) : x);
    s.inputs.push_back({n, 's', 64, v});
    if (span != maskw(b)) assume(s, z3::ule(x, Z->bv_val((uint64_t)span, b)));
    r = v; return true;
  };
  H["rs_choose"] = [=](State& s, const DI& d, const vector<Val>& a, Val& r) {
    string n = param(s, a); int k = (int)sextw(a[1].c, 32);
    if (k <= 0) throw PathEnd{"empty choice"};
    State* base = nullptr;
    for (int i = k - 1; i >= 1; i--) {
      State* c = new State(s);
      c->inputs.push_back({n, 's', 32, Val::mk(i, 32)});
      retTo(*c, Val::mk(i, 32), true);
      work.push_back(c); S.forks++;
    }
    (void)base;
    s.inputs.push_back({n, 's', 32, Val::mk(0, 32)});
    r = Val::mk(0, 32); return true;
  };
  auto fsym = [=](State& s, const vector<Val>& a, Val& r, unsigned b) {
    string n = param(s, a);
    r = mkBV(Z->bv_const(uniq(s, n).c_str(), b));
    s.inputs.push_back({n, 's', b, r}); return true;
  };
  H["rs_f32"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { return fsym(s, a, r, 32); };
  H["rs_f64"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { return fsym(s, a, r, 64); };
  auto freal = [=](State& s, const vector<Val>& a, Val& r, unsigned b) {
    string n = param(s, a);
    z3::expr x = Z->real_const(uniq(s, n).c_str());
    double lo = concD(a[1]), hi = concD(a[2]);
    r = mkReal(b, x, 0, lo, hi);
    if (O.tm && hi > lo) r = tmInput(r, x, lo, hi);
    Input in{n, 'r', b, r}; in.lo = lo; in.hi = hi;
    s.inputs.push_back(in);
    assume(s, x >= realNum(lo) && x <= realNum(hi));
    return true;
  };
  H["rs_real"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { return freal(s, a, r, 64); };
  H["rs_realf"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { return freal(s, a, r, 32); };
  H["rs_param"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) {
    string n = param(s, a); auto it = O.params.find(n);
    r = Val::mk(it == O.params.end() ? a[1].c : (uint64_t)it->second, 64); return true;
  };
  H["rs_assume"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) {
    S.assumed++;
    if (a[0].conc()) { if (!(a[0].c & 1)) throw PathEnd{"assume"}; return true; }
    assume(s, toBool(a[0])); return true;
  };
  H["rs_check"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { checkCond(s, a[0], readStr(s, a[1].c)); return true; };
  H["rs_observe"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { s.obs.push_back({param(s, a), false, a[1]}); return true; };
  H["rs_observe_d"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { s.obs.push_back({param(s, a), true, a[1]}); return true; };
  H["rs_concrete"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { r = Val::mk(concretize(s, a[0]), 64); return true; };
  H["rs_symbolic"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { r = Val::mk(1, 32); return true; };
  H["rs_ite"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { r = selectV(s, a[0], a[1], a[2], false); return true; };
  H["rs_ite_d"] = H["rs_ite"];
  H["rs_reached"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { s.reached.insert(param(s, a)); return true; };
  // allocation
  auto alloc = [](State& s, const Val& n, bool zero, uint64_t al = 16) {
    uint64_t k = concretize(s, n);
    if (k > (1ULL << 28)) throw Violation{"alloc", "huge allocation request"};
    return Val::mk(allocObj(s, k, 'h', zero, "heap", std::max<uint64_t>(16, al)), 64);
  };
  for (const char* n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception", "valloc"})
    H[n] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { r = alloc(s, a[0], false); return true; };
  H["_ZnwmSt11align_val_t"] = H["_ZnamSt11align_val_t"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { r = alloc(s, a[0], false, a[1].c); return true; };
  H["aligned_alloc"] = H["memalign"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { r = alloc(s, a[1], false, a[0].c); return true; };
  H["calloc"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]); r = alloc(s, Val::mk(x * y, 64), true); return true; };
  auto fr = [](State& s, const vector<Val>& a) {
    uint64_t p = concretize(s, a[0]);
    if (!p) return true;
    auto it = s.mem.find(p);
    if (it == s.mem.end() || it->second->kind != 'h') throw Violation{"memory", "invalid or double free"};
    s.mem.erase(it); return true;
  };
  for (const char* n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "__cxa_free_exception"})
    H[n] = [=](State& s, const DI&, const vector<Val>& a, Val& r) { return fr(s, a); };
  H["realloc"] = [=](State& s, const DI&, const vector<Val>& a, Val& r) {
    uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]);
    Val q = alloc(s, Val::mk(n, 64), false);
    if (p) { auto it = s.mem.find(p); if (it == s.mem.end()) throw Violation{"memory", "invalid realloc"}; memCopy(s, q.c, p, std::min(n, it->second->size)); s.mem.erase(p); }
    r = q; return true;
  };
  H["memcpy"] = H["memmove"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    uint64_t n = concretize(s, a[2]); uint64_t x = concretize(s, a[0]), y = concretize(s, a[1]); memCopy(s, x, y, n); r = Val::mk(x, 64); return true;
  };
  // exceptions
  H["__cxa_throw"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { s.excPtr = a[0].c; s.excTI = a[1].c; unwind(s); return false; };
  H["__cxa_rethrow"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    if (s.caught.empty()) throw Violation{"abort", "rethrow without exception"};
    s.excPtr = s.caught.back().first; s.excTI = s.caught.back().second; unwind(s); return false;
  };
  H["__cxa_begin_catch"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { s.caught.push_back({s.excPtr, s.excTI}); r = a[0]; return true; };
  H["__cxa_get_exception_ptr"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { r = a[0]; return true; };
  H["__cxa_end_catch"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { if (!s.caught.empty()) s.caught.pop_back(); return true; };
  auto stdthrow = [&](const char* fn, const char* ti) { string t = ti; H[fn] = [t](State& s, const DI&, const vector<Val>&, Val&) { throwStd(s, t); return false; }; };
  stdthrow("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error");
  stdthrow("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
  stdthrow("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
  stdthrow("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
  stdthrow("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
  stdthrow("_ZSt20__throw_runtime_errorPKc", "_ZTISt13runtime_error");
  stdthrow("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
  stdthrow("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
  stdthrow("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call");
  stdthrow("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast");
  auto die = [&](const char* fn, const char* kind, const char* m) { string k = kind, t = m; H[fn] = [k, t](State& s, const DI&, const vector<Val>&, Val&) -> bool { throw Violation{k, t}; }; };
  die("abort", "abort", "abort() called"); die("_ZSt9terminatev", "abort", "std::terminate called"); die("__clang_call_terminate", "abort", "terminate (exception escaped noexcept)");
  die("exit", "abort", "exit() called"); die("_exit", "abort", "_exit() called"); die("__cxa_pure_virtual", "abort", "pure virtual call"); die("__cxa_bad_typeid", "abort", "bad typeid");
  H["__assert_fail"] = [](State& s, const DI&, const vector<Val>& a, Val&) -> bool { throw Violation{"abort", "assertion failed: " + readStr(s, a[0].c)}; };
  H["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](State& s, const DI&, const vector<Val>& a, Val&) -> bool { throw Violation{"abort", "libstdc++ assertion failed"}; };
  // exception objects of <stdexcept> are only identities here
  for (const char* n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt8bad_castD2Ev", "_ZNSt8bad_castD1Ev",
                        "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"})
    H[n] = [](State& s, const DI&, const vector<Val>& a, Val& r) { return true; };
  H["__cxa_atexit"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { r = Val::mk(0, 32); return true; };
  H["__cxa_guard_acquire"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { Val g = loadBytes(s, a[0].c, 1, 8); r = Val::mk(g.conc() && g.c ? 0 : 1, 32); return true; };
  H["__cxa_guard_release"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { uint64_t off; Obj& o = checkAccess(s, a[0].c, 1, true, off); o.store(off, Val::mk(1, 8)); return true; };
  H["__cxa_guard_abort"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { return true; };
  // clocks: arbitrary non-decreasing instants
  auto clk = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    string n = "clock";
    z3::expr x = Z->bv_const(uniq(s, n).c_str(), 64);
    Val v = mkBV(x);
    s.inputs.push_back({n, 's', 64, v});
    z3::expr lo = s.clock.k == Val::None ? Z->bv_val(0, 64) : toBV(s.clock);
    assume(s, x >= lo && x <= Z->bv_val((uint64_t)1 << 50, 64));
    s.clock = v; r = v; return true;
  };
  H["_ZNSt6chrono3_V212system_clock3nowEv"] = clk; H["_ZNSt6chrono3_V212steady_clock3nowEv"] = clk;
  // math
  for (const char* n0 : {"sin", "cos", "tan", "atan", "asin", "acos", "exp", "log", "log2", "log10", "sinh", "cosh", "tanh", "cbrt", "exp2", "log1p", "expm1", "tgamma", "lgamma"}) {
    string n = n0;
    H[n] = [n](State& s, const DI&, const vector<Val>& a, Val& r) { if (a[0].conc()) { r = concFP(m1(n, concD(a[0])), 64); return true; } if (isReal(a[0])) { r = realFun(s, n, a[0]); return true; } throw Unsupported{"symbolic " + n}; };
    H[n + "f"] = [n](State& s, const DI&, const vector<Val>& a, Val& r) { if (a[0].conc()) { r = Val::mk(bitsF(m1f(n, asF(a[0].c))), 32); return true; } if (isReal(a[0])) { r = realFun(s, n, a[0]); return true; } throw Unsupported{"symbolic " + n}; };
  }
  auto rnd1 = [&](const string& n, int mode) {
    H[n] = H[n + "f"] = [mode](State& s, const DI&, const vector<Val>& a, Val& r) { r = froundV(s, a[0], mode); return true; };
  };
  rnd1("floor", 1); rnd1("ceil", 2); rnd1("trunc", 0); rnd1("round", 3); rnd1("rint", 4); rnd1("nearbyint", 4);
  H["fabs"] = H["fabsf"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { r = fabsV(a[0]); return true; };
  H["nextafter"] = H["nextafterf"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    unsigned w = a[0].w;
    if (a[0].conc() && a[1].conc()) { r = w == 32 ? Val::mk(bitsF(std::nextafterf((float)concD(a[0]), (float)concD(a[1]))), 32) : Val::mk(bitsD(std::nextafter(concD(a[0]), concD(a[1]))), 64); return true; }
    if (isReal(a[0]) || isReal(a[1]) || a[0].k == Val::FP || a[1].k == Val::FP) throw Unsupported{"nextafter on an arithmetic term"};
    z3::expr lt = toBool(fcmp(s, CmpInst::FCMP_OLT, a[0], a[1])), eq = toBool(fcmp(s, CmpInst::FCMP_OEQ, a[0], a[1])), un = toBool(fcmp(s, CmpInst::FCMP_UNO, a[0], a[1]));
    z3::expr x = toBV(a[0]), y = toBV(a[1]), one = Z->bv_val(1, w), sg = Z->bv_val((uint64_t)1 << (w - 1), w), mg = Z->bv_val((uint64_t)(maskw(w) >> 1), w);
    z3::expr isz = (x & mg) == Z->bv_val(0, w), pos = (x & sg) == Z->bv_val(0, w);
    z3::expr nan = Z->bv_val((uint64_t)(w == 32 ? 0x7fc00000ULL : 0x7ff8000000000000ULL), w);
    r = mkBV(z3::ite(un, nan, z3::ite(eq, y, z3::ite(isz, (y & sg) | one, z3::ite(lt == pos, x + one, x - one)))));
    return true;
  };
  H["sqrt"] = H["sqrtf"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    unsigned w = a[0].w;
    if (a[0].conc()) r = w == 32 ? Val::mk(bitsF(std::sqrt(asF(a[0].c))), 32) : concFP(std::sqrt(concD(a[0])), 64);
    else if (isReal(a[0])) r = realSqrt(s, a[0]);
    else r = mkFP(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, RNE(), toFP(a[0], w))));
    return true;
  };
  auto m2 = [&](const string& n, double (*fd)(double, double), float (*ff)(float, float)) {
    H[n] = [n, fd](State& s, const DI&, const vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc()) { r = concFP(fd(concD(a[0]), concD(a[1])), 64); return true; } throw Unsupported{"symbolic " + n}; };
    H[n + "f"] = [n, ff](State& s, const DI&, const vector<Val>& a, Val& r) { if (a[0].conc() && a[1].conc()) { r = Val::mk(bitsF(ff(asF(a[0].c), asF(a[1].c))), 32); return true; } throw Unsupported{"symbolic " + n}; };
  };
  H["copysign"] = H["copysignf"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    unsigned w = a[0].w;
    if (a[0].conc() && a[1].conc()) { r = w == 32 ? Val::mk(bitsF(std::copysign(asF(a[0].c), asF(a[1].c))), 32) : concFP(std::copysign(concD(a[0]), concD(a[1])), 64); return true; }
    if (isReal(a[0]) || isReal(a[1])) { r = realCopysign(s, a[0], a[1]); return true; }
    z3::expr sg = Z->bv_val((uint64_t)1 << (w - 1), w);
    r = mkBV((toBV(a[0]) & ~sg) | (toBV(a[1]) & sg)); return true;
  };
  m2("pow", ::pow, ::powf); m2("atan2", ::atan2, ::atan2f); m2("hypot", ::hypot, ::hypotf); m2("remainder", ::remainder, ::remainderf);
  H["fmod"] = H["fmodf"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    if (a[0].conc() && a[1].conc()) { r = a[0].w == 32 ? Val::mk(bitsF(::fmodf(asF(a[0].c), asF(a[1].c))), 32) : concFP(::fmod(concD(a[0]), concD(a[1])), 64); return true; }
    if (!isReal(a[0])) throw Unsupported{"symbolic fmod"};
    r = realFmod(s, a[0], a[1]); return true;
  };
  H["atan2"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    if (a[0].conc() && a[1].conc()) { r = concFP(::atan2(concD(a[0]), concD(a[1])), 64); return true; }
    RV y = toR(a[0]), x = toR(a[1]);
    s.abstracted = true; keep.push_back(x.e); keep.push_back(y.e);
    string id = std::to_string(y.e.id()) + "!" + std::to_string(x.e.id());
    z3::expr t = Z->real_const(("atan2!" + id).c_str());
    z3::expr pi = realNum(3.14159265358979323846) + realNum(1e-15);
    addDef(s, t >= -pi && t <= pi);
    r = mkReal(64, t, 1e-14, -3.1415926535897936, 3.1415926535897936); return true;
  };
  H["frexp"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    if (!a[0].conc()) throw Unsupported{"symbolic frexp"};
    int e; double m = std::frexp(concD(a[0]), &e); storeConc(s, a[1].c, Type::getInt32Ty(M->getContext()), Val::mk((uint32_t)e, 32)); r = concFP(m, 64); return true;
  };
  H["ldexp"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    if (!a[0].conc() || !a[1].conc()) throw Unsupported{"symbolic ldexp"};
    r = concFP(std::ldexp(concD(a[0]), (int)sextw(a[1].c, 32)), 64); return true;
  };
  H["rand"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { string n = "rand"; z3::expr x = Z->bv_const(uniq(s, n).c_str(), 31); Val v = mkBV(z3::zext(x, 1)); s.inputs.push_back({n, 's', 32, v}); r = v; return true; };
  H["srand"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { return true; };
  H["time"] = [](State& s, const DI&, const vector<Val>& a, Val& r) { r = Val::mk(1, 64); return true; };
  H["__errno_location"] = [](State& s, const DI&, const vector<Val>& a, Val& r) {
    for (auto& kv : s.mem) if (kv.second->name == "errno") { r = Val::mk(kv.first, 64); return true; }
    r = Val::mk(allocObj(s, 4, 'g', true, "errno"), 64); return true;
  };
}
