// Real mode: a floating-point value is a real term plus an interval and an
// absolute bound on the accumulated rounding error (|value - term| <= err).
#pragma once
static unsigned realCnt = 0;
static Val realAbs(const Val& v);
struct RV;
static bool realPowTaylor(const RV& x, double p, unsigned w, Val& out);
static double up(double x) { return x + std::fabs(x) * 4e-16 + 1e-300; }
static double unitOf(unsigned w) { return w == 32 ? 6.0e-8 : 1.1103e-16; }
static double tinyOf(unsigned w) { return w == 32 ? 1e-44 : 5e-324; }
static double concD(const Val& v) { return v.w == 32 ? (double)asF(v.c) : asD(v.c); }

static z3::expr realNum(double d) {
  if (d == std::floor(d) && std::fabs(d) < 9e15) return Z->real_val((int64_t)d, (int64_t)1);
  int ex; double m = std::frexp(d, &ex);
  int64_t mi = (int64_t)std::ldexp(m, 53); ex -= 53;
  while (!(mi & 1) && ex < 0) { mi >>= 1; ex++; }
  z3::expr r = Z->real_val(mi, (int64_t)1);
  // exact rational mi * 2^ex
  if (ex >= 0) {
    string s = "1"; z3::expr p = Z->real_val(1);
    for (int i = 0; i < ex; i++) p = p * 2;
    return (r * p).simplify();
  }
  string num = std::to_string(mi);
  // 2^-ex as decimal string
  vector<int> dg{1};
  for (int i = 0; i < -ex; i++) { int c = 0; for (auto& x : dg) { x = x * 2 + c; c = x / 10; x %= 10; } while (c) { dg.push_back(c % 10); c /= 10; } }
  string den; for (int i = (int)dg.size() - 1; i >= 0; i--) den += char('0' + dg[i]);
  return Z->real_val((num + "/" + den).c_str());
}
typedef vector<double> TM;
struct RV { z3::expr e; double err, lo, hi; bool cst; std::shared_ptr<TM> tm; int tv; };
static RV toR(const Val& v) {
  if (v.k == Val::Real) return RV{v.p->e, v.p->err, v.p->lo, v.p->hi, false, v.p->tm, v.p->tv};
  if (v.conc()) { double d = concD(v); return RV{realNum(d), 0, d, d, true, O.tm ? std::make_shared<TM>(TM{d}) : nullptr, -1}; }
  // an uninitialised value: any number, so that what depends on it fails its checks
  if (!v.conc()) {
    z3::expr e = toBV(v);
    if (e.is_const() && e.decl().name().kind() == Z3_STRING_SYMBOL && (e.decl().name().str().rfind("uninit!", 0) == 0 || e.decl().name().str().rfind("undef", 0) == 0))
      return RV{Z->real_const((e.decl().name().str() + "!r").c_str()), 0, -1e6, 1e6, false, nullptr, -1};
  }
  throw Unsupported{"real-mode operation on a bit-level value"};
}
static Val mkReal(unsigned w, const z3::expr& e, double err, double lo, double hi) {
  Val v = Val::node(Val::Real, w, e);
  v.p->err = err; v.p->lo = lo; v.p->hi = hi;
  if (!(std::isfinite(err) && std::isfinite(lo) && std::isfinite(hi))) throw Unsupported{"real-mode bound lost"};
  return v;
}
// ---- truncated polynomial (Taylor model) form of terms over one narrow input
static vector<z3::expr> tmVars;  // normalised inputs, in [-1, 1]
static double tmNorm(const TM& c, size_t from) { double r = 0; for (size_t i = from; i < c.size(); i++) r += std::fabs(c[i]); return r * (1 + 1e-15); }
static z3::expr tmExpr(const TM& c, int tv) {
  z3::expr r = realNum(c.back());
  for (int i = (int)c.size() - 2; i >= 0; i--) r = r * tmVars[tv] + realNum(c[i]);
  return r;
}
static Val tmVal(unsigned w, TM c, int tv, double err, double lo, double hi) {
  double T = 0;
  while (c.size() > O.tm + 1) { T += std::fabs(c.back()); c.pop_back(); }
  double n = tmNorm(c, 0);
  double dev = tmNorm(c, 1);
  err = up(err + T + 4e-16 * n * (2 + c.size()));
  double l = c[0] - dev - 1e-15 * n - 1e-300, h = c[0] + dev + 1e-15 * n + 1e-300;
  // [lo, hi] bounds the untruncated term: widen by what was moved to the error
  double sl = T + 4e-16 * n * (2 + c.size());
  Val v = mkReal(w, tmExpr(c, tv), err, std::max(lo - sl, l), std::min(hi + sl, h));
  v.p->tm = std::make_shared<TM>(c); v.p->tv = tv;
  return v;
}
static Val tmInput(const Val& r, const z3::expr& x, double lo, double hi) {
  double m = (lo + hi) / 2, rad = up(std::max(hi - m, m - lo));
  double rr = std::ldexp(1.0, std::ilogb(rad));  // scale by an exact power of two
  int tv = -1;
  z3::expr u = (x - realNum(m)) / realNum(2 * rr);
  for (size_t i = 0; i < tmVars.size(); i++) if (z3::eq(tmVars[i], u)) tv = (int)i;
  if (tv < 0) { tmVars.push_back(u); tv = (int)tmVars.size() - 1; }
  if (m + 0.0 != m) return r;
  Val v = r;
  v.p->tm = std::make_shared<TM>(TM{m, 2 * rr}); v.p->tv = tv;
  return v;
}
static Val tmScale(Val r, const RV& x, double k) {
  if (!x.tm || x.cst) return r;
  auto c = std::make_shared<TM>(*x.tm);
  for (auto& d : *c) d *= k;
  r.p->tm = c; r.p->tv = x.tv;
  return r;
}
static TM tmMul(const TM& a, const TM& b) {
  TM r(a.size() + b.size() - 1, 0.0);
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j];
  return r;
}
static TM tmAdd(const TM& a, const TM& b, double k) {
  TM r(std::max(a.size(), b.size()), 0.0);
  for (size_t i = 0; i < a.size(); i++) r[i] += a[i];
  for (size_t i = 0; i < b.size(); i++) r[i] += k * b[i];
  return r;
}
// polynomial a_0 + .. + a_K d^K of d = x - m in truncated form; trunc: what is moved to the error
static TM tmPoly(const RV& x, double m, const double* a, int K, double h, double& trunc) {
  TM d = *x.tm; d[0] -= m;
  TM r{a[K]};
  trunc = 0;
  for (int k = K - 1; k >= 0; k--) {
    r = tmMul(r, d); trunc *= h;
    while (r.size() > O.tm + 1) { trunc += std::fabs(r.back()); r.pop_back(); }
    r[0] += a[k];
    trunc += 1e-15 * tmNorm(r, 0);
  }
  return r;
}
static double mag(double lo, double hi) { return std::max(std::fabs(lo), std::fabs(hi)); }
static double rnd(unsigned w, double lo, double hi, double err) { return up(err + unitOf(w) * (mag(lo, hi) + err) + tinyOf(w)); }
static bool isReal(const Val& a) { return a.k == Val::Real; }
static bool isSpecial(const Val& a) { return a.conc() && !std::isfinite(concD(a)); }
static bool isPow2(double d) { int e; return d != 0 && std::fabs(std::frexp(d, &e)) == 0.5; }

// try to tighten the interval of a term under the path condition
static double provedAbsLower(State& s, const z3::expr& e) {
  for (double m : {1.0, 0.1, 0.01, 1e-3, 1e-5, 1e-8, 1e-12}) {
    std::shared_ptr<z3::model> mm;
    z3::expr b = realNum(m);
    if (query(s, e < b && e > -b, mm, 3000) == UNSAT) return m;
  }
  return 0;
}
static void addDef(State& s, const z3::expr& d) {
  if (s.defs.insert(d.id()).second) {
    keep.push_back(d);
    s.pc.push_back(d);
    if (!modelTrue(s, d)) {
      s.modelOk = false;
      std::shared_ptr<z3::model> m;
      R3 r = query(s, Z->bool_val(true), m);
      if (r == UNSAT) throw PathEnd{"infeasible definition"};
      if (r == SAT) { s.model = m; s.modelOk = true; }
    }
  }
}

static Val realCmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b);
// sign of a real-mode value, by forking: 1, -1 or 0
static int realSign(State& s, const Val& v) {
  Val z = Val::mk(0, v.w);
  if (decide(s, realCmp(s, CmpInst::FCMP_OGT, v, z))) return 1;
  return decide(s, realCmp(s, CmpInst::FCMP_OLT, v, z)) ? -1 : 0;
}
static Val realBin(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  if (((op == Instruction::FMul && (isSpecial(a) || isSpecial(b))) || (op == Instruction::FDiv && !isSpecial(b) && ((b.conc() && concD(b) == 0) || isSpecial(a))))) {
    double x = a.conc() ? concD(a) : 1, y = b.conc() ? concD(b) : 1, r;
    if (std::isnan(x) || std::isnan(y)) r = NAN;
    else {
      if (!a.conc()) x = realSign(s, a);
      if (!b.conc()) { y = realSign(s, b); if (y == 0 && op == Instruction::FDiv) throw Unsupported{"infinity divided by a value that may be zero"}; }
      r = op == Instruction::FMul ? x * y : x / y;
    }
    if (std::isnan(r)) return Val::mk(w == 32 ? 0x7fc00000 : 0x7ff8000000000000ULL, w);
    return w == 32 ? Val::mk(bitsF((float)r), 32) : Val::mk(bitsD(r), 64);
  }
  if (isSpecial(a) || isSpecial(b)) {
    double x = a.conc() ? concD(a) : 1, y = b.conc() ? concD(b) : 1;
    if (std::isnan(x) || std::isnan(y)) return Val::mk(w == 32 ? 0x7fc00000 : 0x7ff8000000000000ULL, w);
    double r;
    if (op == Instruction::FAdd) r = x + y; else if (op == Instruction::FSub) r = x - y;
    else if (op == Instruction::FDiv && std::isinf(y)) r = 0;
    else throw Unsupported{"real-mode op on infinity"};
    return w == 32 ? Val::mk(bitsF((float)r), 32) : Val::mk(bitsD(r), 64);
  }
  RV x = toR(a), y = toR(b);
  if (op == Instruction::FMul && y.cst && y.lo == 1) return a;
  if (op == Instruction::FMul && x.cst && x.lo == 1) return b;
  if (op == Instruction::FDiv && y.cst && y.lo == 1) return a;
  if (O.tm && x.tm && y.tm && (x.cst || y.cst || x.tv == y.tv) && !(x.cst && y.cst)) {
    int tv = x.cst ? y.tv : x.tv;
    if (op == Instruction::FAdd || op == Instruction::FSub) {
      double k = op == Instruction::FAdd ? 1 : -1;
      if (y.cst && y.lo == 0) return a;
      double yl = k > 0 ? y.lo : -y.hi, yh = k > 0 ? y.hi : -y.lo, lo = x.lo + yl, hi = x.hi + yh;
      lo -= std::fabs(lo) * 4e-16 + 1e-300; hi = up(hi);
      return tmVal(w, tmAdd(*x.tm, *y.tm, k), tv, rnd(w, lo, hi, x.err + y.err), lo, hi);
    }
    bool mul = op == Instruction::FMul;
    if (mul && !(x.cst && x.lo == 0) && !(y.cst && y.lo == 0)) {
      double p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
      double lo = *std::min_element(p, p + 4), hi = up(*std::max_element(p, p + 4));
      lo -= std::fabs(lo) * 4e-16 + 1e-300;
      double e = up(x.err * mag(y.lo, y.hi) + y.err * mag(x.lo, x.hi) + x.err * y.err);
      return tmVal(w, tmMul(*x.tm, *y.tm), tv, rnd(w, lo, hi, e), lo, hi);
    }
    if (op == Instruction::FDiv && y.cst && y.lo != 0) {
      TM c = *x.tm; for (auto& q : c) q /= y.lo;
      double p[2] = {x.lo / y.lo, x.hi / y.lo}, lo = std::min(p[0], p[1]), hi = up(std::max(p[0], p[1]));
      lo -= std::fabs(lo) * 4e-16 + 1e-300;
      return tmVal(w, c, tv, rnd(w, lo, hi, up(x.err / std::fabs(y.lo))), lo, hi);
    }
  }
  switch (op) {
    case Instruction::FAdd:
      if (y.cst && y.lo == 0) return a;
      if (x.cst && x.lo == 0) return b;
      { double lo = up(x.lo + y.lo) , hi = up(x.hi + y.hi); lo = x.lo + y.lo; lo -= std::fabs(lo) * 4e-16 + 1e-300;
        return mkReal(w, x.e + y.e, rnd(w, lo, hi, x.err + y.err), lo, hi); }
    case Instruction::FSub:
      if (y.cst && y.lo == 0) return a;
      if (z3::eq(x.e, y.e) && x.err == 0 && y.err == 0) return Val::mk(0, w);
      { double hi = up(x.hi - y.lo), lo = x.lo - y.hi; lo -= std::fabs(lo) * 4e-16 + 1e-300;
        return mkReal(w, x.e - y.e, rnd(w, lo, hi, x.err + y.err), lo, hi); }
    case Instruction::FMul: {
      if ((y.cst && y.lo == 0) || (x.cst && x.lo == 0)) return Val::mk(0, w);
      if (y.cst && y.lo == 1) return a;
      if (x.cst && x.lo == 1) return b;
      double p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
      double lo = *std::min_element(p, p + 4), hi = up(*std::max_element(p, p + 4));
      lo -= std::fabs(lo) * 4e-16 + 1e-300;
      double e = up(x.err * mag(y.lo, y.hi) + y.err * mag(x.lo, x.hi) + x.err * y.err);
      bool exact = (y.cst && isPow2(y.lo)) || (x.cst && isPow2(x.lo));
      return mkReal(w, x.e * y.e, exact ? up(e) + tinyOf(w) : rnd(w, lo, hi, e), lo, hi);
    }
    case Instruction::FDiv: {
      double m = y.lo > 0 ? y.lo : y.hi < 0 ? -y.hi : 0;
      bool boundM = m > y.err;
      if (y.cst && y.lo == 0) throw Unsupported{"real-mode division by zero"};
      if (!boundM) {
        m = provedAbsLower(s, y.e);
        if (m <= y.err) {
          // 0 / y with exact 0
          if (x.cst && x.lo == 0) return Val::mk(0, w);
          throw Unsupported{"real-mode division by a value not bounded away from zero"};
        }
      }
      if ((O.taylor || (O.tm && y.tm)) && !y.cst) { Val rc; if (realPowTaylor(y, -1, w, rc)) return realBin(s, Instruction::FMul, a, rc, w); }
      double mx = mag(x.lo, x.hi);
      double hi = up(mx / m), lo = -hi;
      if (y.lo > 0 || y.hi < 0) {
        double p[4] = {x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi};
        lo = *std::min_element(p, p + 4); hi = up(*std::max_element(p, p + 4)); lo -= std::fabs(lo) * 4e-16 + 1e-300;
      }
      double e = up((x.err + mag(lo, hi) * y.err) / (m - y.err));
      bool exact = y.cst && isPow2(y.lo);
      z3::expr q = y.cst ? (x.e * (Z->real_val(1) / y.e).simplify()) : (x.e / y.e);
      return mkReal(w, q, exact ? up(e) + tinyOf(w) : rnd(w, lo, hi, e), lo, hi);
    }
  }
  throw Unsupported{"real-mode op"};
}
static Val inexactBool(const z3::expr& T, const z3::expr& F) {
  z3::expr t = T.simplify(), f = F.simplify();
  if (f.is_false()) return Val::mk(1, 1);
  if (t.is_false()) return Val::mk(0, 1);
  Val v = Val::node(Val::Bool, 1, t);
  v.p->hasF = true; v.p->f = f;
  return v;
}
static Val realCmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b) {
  // Values are finite, so ordered and unordered predicates coincide (except vs special constants).
  unsigned q = p;
  if (q >= 8 && q < 15) q -= 8;  // ueq.. -> unordered versions are 8..14; map to ordered
  if (isSpecial(a) || isSpecial(b)) {
    double x = a.conc() ? concD(a) : 0, y = b.conc() ? concD(b) : 0;
    bool un = std::isnan(x) || std::isnan(y), r;
    if (p == CmpInst::FCMP_ORD) return Val::mk(!un, 1);
    if (p == CmpInst::FCMP_UNO) return Val::mk(un, 1);
    if (un) return Val::mk(p >= 8, 1);
    switch (q) {
      case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break;
      case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; default: r = p == CmpInst::FCMP_TRUE;
    }
    return Val::mk(r, 1);
  }
  if (p == CmpInst::FCMP_ORD || p == CmpInst::FCMP_TRUE) return Val::mk(1, 1);
  if (p == CmpInst::FCMP_UNO || p == CmpInst::FCMP_FALSE) return Val::mk(0, 1);
  RV x = toR(a), y = toR(b);
  if (p == CmpInst::FCMP_UEQ) q = 1; else if (p == CmpInst::FCMP_UGT) q = 2; else if (p == CmpInst::FCMP_UGE) q = 3;
  else if (p == CmpInst::FCMP_ULT) q = 4; else if (p == CmpInst::FCMP_ULE) q = 5; else if (p == CmpInst::FCMP_UNE) q = 6;
  else q = p;
  double E = up(x.err + y.err);
  if (x.err == 0 && y.err == 0) E = 0;
  // interval shortcut
  double slack = E;
  if (q == 2 || q == 3) { if (x.lo - y.hi > slack) return Val::mk(1, 1); if (x.hi - y.lo < -slack) return Val::mk(0, 1); }
  if (q == 4 || q == 5) { if (x.hi - y.lo < -slack) return Val::mk(1, 1); if (x.lo - y.hi > slack) return Val::mk(0, 1); }
  if (E == 0) {
    z3::expr r(*Z);
    switch (q) {
      case 1: r = x.e == y.e; break; case 2: r = x.e > y.e; break; case 3: r = x.e >= y.e; break;
      case 4: r = x.e < y.e; break; case 5: r = x.e <= y.e; break; default: r = x.e != y.e; break;
    }
    return mkBool(r.simplify());
  }
  z3::expr e = realNum(E), d = x.e - y.e;
  switch (q) {
    case 1: return inexactBool(d <= e && d >= -e, Z->bool_val(true));
    case 6: return inexactBool(Z->bool_val(true), d <= e && d >= -e);
    case 2: return inexactBool(d > -e, d <= e);
    case 3: return inexactBool(d >= -e, d < e);
    case 4: return inexactBool(d < e, d >= -e);
    default: return inexactBool(d <= e, d > -e);
  }
}
// value -> concrete integer by forking over the feasible truncations/floors
// mode: 0 trunc, 1 floor, 2 ceil, 3 round (half away)
static int64_t realToInt(State& s, const Val& v, int mode) {
  if (v.conc()) {
    double d = concD(v);
    switch (mode) { case 0: return (int64_t)std::trunc(d); case 1: return (int64_t)std::floor(d); case 2: return (int64_t)std::ceil(d); default: return (int64_t)std::round(d); }
  }
  RV x = toR(v);
  double lo = x.lo - x.err, hi = x.hi + x.err;
  int64_t a, b;
  switch (mode) { case 0: a = (int64_t)std::trunc(lo); b = (int64_t)std::trunc(hi); break; case 1: a = (int64_t)std::floor(lo); b = (int64_t)std::floor(hi); break;
    case 2: a = (int64_t)std::ceil(lo); b = (int64_t)std::ceil(hi); break; default: a = (int64_t)std::round(lo); b = (int64_t)std::round(hi); }
  if (b - a > (int64_t)O.maxEnum) throw Unsupported{"real-to-integer range too large"};
  z3::expr E = realNum(x.err);
  for (int64_t k = a; k < b; k++) {
    // value belongs to class <= k ?
    z3::expr T(*Z), F(*Z);
    auto R = [&](double d) { return realNum(d); };
    double thr; bool incl;  // value < thr (or <= thr when incl) <=> class <= k
    switch (mode) {
      case 0: if (k >= 0) { thr = k + 1; incl = false; } else { thr = k; incl = true; } break;
      case 1: thr = k + 1; incl = false; break;
      case 2: thr = k; incl = true; break;
      default: if (k >= 0) { thr = k + 0.5; incl = false; } else { thr = k + 0.5; incl = true; } break;
    }
    if (x.err == 0) { T = incl ? (x.e <= R(thr)) : (x.e < R(thr)); if (decide(s, mkBool(T.simplify()))) return k; }
    else {
      T = incl ? (x.e <= R(thr) + E) : (x.e < R(thr) + E);
      F = incl ? (x.e > R(thr) - E) : (x.e >= R(thr) - E);
      if (decide(s, inexactBool(T, F))) return k;
    }
  }
  return b;
}
static Val realFloor(State& s, const Val& v, int mode) {
  RV x = toR(v);
  if (x.hi - x.lo + 2 * x.err < 8) {
    int64_t k = realToInt(s, v, mode);
    double d = (double)k;
    return v.w == 32 ? Val::mk(bitsF((float)d), 32) : Val::mk(bitsD(d), 64);
  }
  if (mode == 4) mode = 3;
  string key = "floor!" + std::to_string(mode) + "!" + std::to_string(x.e.id()) + "!" + std::to_string(v.w);
  keep.push_back(x.e);
  z3::expr k = z3::expr(*Z, Z3_mk_int2real(*Z, Z->int_const(key.c_str())));
  z3::expr E = realNum(x.err);
  z3::expr fl = k <= x.e + E && x.e - E < k + 1, ce = k >= x.e - E && x.e + E > k - 1;
  if (mode == 1) addDef(s, fl);
  else if (mode == 2) addDef(s, ce);
  else if (mode == 0) addDef(s, (fl && x.e >= -E) || (ce && x.e <= E));
  else addDef(s, k <= x.e + E + realNum(0.5) && k >= x.e - E - realNum(0.5));
  return mkReal(v.w, k, 0, std::floor(x.lo - x.err), std::ceil(x.hi + x.err));
}
// fmod by a concrete positive divisor: exact in IEEE arithmetic
static Val realFmod(State& s, const Val& v, const Val& d) {
  if (!d.conc() || !(concD(d) > 0) || isSpecial(d)) throw Unsupported{"real-mode fmod by a symbolic value"};
  RV x = toR(v);
  double c = concD(d);
  z3::expr C = realNum(c), E = realNum(x.err);
  {
    double l = x.lo - x.err, h = x.hi + x.err, q = std::trunc(l / c);
    // the quotient is the same over the whole range (away from its boundaries)
    if (std::fabs(q) < 1e6 && std::trunc(h / c) == q && ((l > 1e-9 && l - q * c > 1e-9 && h - q * c < c - 1e-9) || (h < -1e-9 && l - q * c > -c + 1e-9 && h - q * c < -1e-9)))
      return mkReal(v.w, x.e - C * realNum(q), x.err, (x.lo - q * c) - 1e-9, (x.hi - q * c) + 1e-9);
  }
  string key = "fmod!" + std::to_string(x.e.id()) + "!" + std::to_string(C.id());
  keep.push_back(x.e); keep.push_back(C);
  z3::expr q = z3::expr(*Z, Z3_mk_int2real(*Z, Z->int_const(key.c_str())));
  z3::expr r = x.e - C * q;
  double ql = std::trunc((x.lo - x.err) / c) - 1, qh = std::trunc((x.hi + x.err) / c) + 1;
  z3::expr P = x.e >= -E && r >= -E && r < C + E && q >= 0, N = x.e <= E && r <= E && r > -C - E && q <= 0;
  if (x.lo - x.err >= 0) addDef(s, P && q <= realNum(qh));
  else if (x.hi + x.err < 0) addDef(s, N && q >= realNum(ql));
  else addDef(s, (P || N) && q >= realNum(ql) && q <= realNum(qh));
  return mkReal(v.w, r, x.err, x.lo - x.err >= 0 ? 0 : -c, x.hi + x.err < 0 ? 0 : c);
}
static Val realCopysign(State& s, const Val& v, const Val& sg) {
  bool neg;
  if (sg.conc()) neg = (sg.c >> (sg.w - 1)) & 1;
  else { RV y = toR(sg); z3::expr E = realNum(y.err); neg = y.lo > y.err ? false : y.hi < -y.err ? true : decide(s, inexactBool(y.e <= E, y.e >= -E)); }
  Val a = v.conc() ? (v.w == 32 ? Val::mk(bitsF(std::fabs(asF(v.c))), 32) : Val::mk(bitsD(std::fabs(asD(v.c))), 64)) : realAbs(v);
  if (!neg) return a;
  if (a.conc()) return a.w == 32 ? Val::mk(bitsF(-asF(a.c)), 32) : Val::mk(bitsD(-asD(a.c)), 64);
  RV x = toR(a);
  return mkReal(a.w, -x.e, x.err, -x.hi, -x.lo);
}
// Taylor enclosure of x^p, x > 0, over a narrow range
static bool realPowTaylor(const RV& x, double p, unsigned w, Val& out) {
  double lo = x.lo - x.err, hi = x.hi + x.err;
  if (!(lo > 1e-6) || !(hi - lo <= 0.5 * lo)) return false;
  double m = (float)((lo + hi) / 2), h = up(std::max(hi - m, m - lo)), a[24], R = 1e9;
  double target = (w == 32 ? 1e-9 : 1e-12) * std::pow(m, p);
  int K = 0;
  double c = 1;
  for (int k = 0; k < 23; k++) {
    a[k] = c * std::pow(m, p - k);
    double c2 = c * (p - k) / (k + 1);
    R = std::fabs(c2) * std::pow(p - k - 1 < 0 ? lo : hi, p - k - 1) * std::pow(h, k + 1) * 1.00001;
    K = k; c = c2;
    if (R <= target) break;
  }
  if (R > 1e-7 * std::pow(m, p)) return false;
  z3::expr d = x.e - realNum(m), q = realNum(a[K]);
  double mx = std::fabs(a[K]);
  for (int k = K - 1; k >= 0; k--) { q = q * d + realNum(a[k]); mx = mx * h + std::fabs(a[k]); }
  double L = std::fabs(p) * std::max(std::pow(lo, p - 1), std::pow(hi, p - 1)), vl = std::pow(lo, p), vh = std::pow(hi, p);
  double err = up(R + L * x.err + (2 * unitOf(w) + 4e-15) * mx);
  if (O.tm && x.tm && !x.cst) { double tr; TM t = tmPoly(x, m, a, K, h, tr); out = tmVal(w, t, x.tv, err + tr, std::min(vl, vh) * (1 - 1e-9) - err, std::max(vl, vh) * (1 + 1e-9) + err); return true; }
  out = mkReal(w, q, err, std::min(vl, vh) * (1 - 1e-9) - err, std::max(vl, vh) * (1 + 1e-9) + err);
  return true;
}
// Taylor enclosure of a smooth function over a narrow range: polynomial term, remainder in the error bound
static bool realTaylor(State& s, const string& n, const Val& v, Val& out) {
  RV x = toR(v);
  double lo = x.lo - x.err, hi = x.hi + x.err;
  if (!(hi - lo <= 1.01)) return false;
  double m = (float)((lo + hi) / 2), h = up(std::max(hi - m, m - lo)), L = 1;
  const int KM = 12;
  double a[KM + 1], fact = 1, best = 1e9; int K = 0;
  double target = v.w == 32 ? 1e-9 : 1e-12;
  if (n == "log" && lo <= 0.01) return false;
  if (n != "sin" && n != "cos" && n != "exp" && n != "atan" && n != "log") return false;
  if (n == "exp") L = std::exp(hi) * 1.0001;
  if (n == "log") L = 1 / lo;
  double th = std::atan2(1.0, m), sq = std::sqrt(1 + m * m);
  for (int k = 0; k <= KM; k++) {
    if (k) fact *= k;
    if (n == "exp") a[k] = std::exp(m) / fact;
    else if (n == "sin") a[k] = (k % 4 == 0 ? std::sin(m) : k % 4 == 1 ? std::cos(m) : k % 4 == 2 ? -std::sin(m) : -std::cos(m)) / fact;
    else if (n == "cos") a[k] = (k % 4 == 0 ? std::cos(m) : k % 4 == 1 ? -std::sin(m) : k % 4 == 2 ? -std::cos(m) : std::sin(m)) / fact;
    else if (n == "atan") a[k] = k == 0 ? std::atan(m) : (k % 2 ? 1 : -1) * std::sin(k * th) / std::pow(sq, k) / k;
    else a[k] = k == 0 ? std::log(m) : (k % 2 ? 1 : -1) / (k * std::pow(m, k));
    // remainder when the terms 0..k are kept
    double R, hk = std::pow(h, k + 1);
    if (n == "exp") R = std::exp(hi) * hk / (fact * (k + 1));
    else if (n == "sin" || n == "cos") R = hk / (fact * (k + 1));
    else if (n == "atan") R = hk / (k + 1);
    else R = hk / ((k + 1) * std::pow(lo, k + 1));
    R = R * 1.000001;
    if (R < best) { best = R; K = k; }
    if (best <= target) break;
  }
  if (best > 2e-6) return false;
  z3::expr d = x.e - realNum(m), p = realNum(a[K]);
  double mx = std::fabs(a[K]);
  for (int k = K - 1; k >= 0; k--) { p = p * d + realNum(a[k]); mx = mx * h + std::fabs(a[k]); }
  double err = up(best + L * x.err + 4 * unitOf(v.w) * mx + 4e-15 * mx);
  double dev = 0; for (int k = K; k >= 1; k--) dev = (dev + std::fabs(a[k])) * h;
  double olo = a[0] - dev - err, ohi = a[0] + dev + err;
  if (n == "exp") olo = std::max(olo, std::exp(lo) * 0.9999 - err);
  if (n == "sin" || n == "cos") { olo = std::max(olo, -1.0 - err); ohi = std::min(ohi, 1.0 + err); }
  s.abstracted = true;
  if (O.tm && x.tm && !x.cst) { double tr; TM t = tmPoly(x, m, a, K, h, tr); out = tmVal(v.w, t, x.tv, err + tr, olo, ohi); return true; }
  out = mkReal(v.w, p, err, olo, ohi);
  return true;
}
static Val realSqrt(State& s, const Val& v) {
  RV x = toR(v);
  if (x.hi < 0) throw Unsupported{"sqrt of negative"};
  if (x.lo < -x.err - 1e-300) {
    // require non-negativity provable
    std::shared_ptr<z3::model> m;
    if (query(s, x.e < -realNum(x.err), m) != UNSAT) throw Unsupported{"sqrt of a possibly negative value"};
  }
  if (O.taylor || (O.tm && x.tm)) { Val o; if (realPowTaylor(x, 0.5, v.w, o)) return o; }
  string key = "sqrt!" + std::to_string(x.e.id());
  keep.push_back(x.e);
  z3::expr r = Z->real_const(key.c_str());
  addDef(s, r >= 0 && z3::ite(x.e >= 0, r * r == x.e, r == 0));
  double lo = x.lo > 0 ? std::sqrt(x.lo) * (1 - 1e-15) : 0, hi = up(std::sqrt(std::max(0.0, x.hi)));
  double e = x.err == 0 ? 0 : (x.lo > 0 ? std::min(up(x.err / std::sqrt(x.lo)), up(std::sqrt(x.err))) : up(std::sqrt(x.err)));
  return mkReal(v.w, r, rnd(v.w, lo, hi, e), lo, hi);
}
// e as coeff * body, where body is free of numeric factors
static bool oneMonomial(const z3::expr& e, double& c, std::vector<unsigned>& body) {
  z3::params ps(*Z); ps.set("som", true);
  z3::expr r = e.simplify(ps);
  keep.push_back(r);
  c = 1; body.clear();
  if (r.is_app() && r.decl().decl_kind() == Z3_OP_ADD) return false;
  if (r.is_numeral()) return false;
  if (r.is_app() && r.decl().decl_kind() == Z3_OP_MUL) {
    for (unsigned i = 0; i < r.num_args(); i++) {
      double q;
      if (r.arg(i).is_numeral(q)) c *= q; else { keep.push_back(r.arg(i)); body.push_back(r.arg(i).id()); }
    }
    std::sort(body.begin(), body.end());
  } else body.push_back(r.id());
  return !body.empty() && c != 0;
}
static Val realTrig(State& s, const Val& v, bool isCos) {
  { Val o; if (realTaylor(s, isCos ? "cos" : "sin", v, o)) return o; }
  RV x = toR(v);
  {
    // an argument that is an earlier one up to the rounding of a constant factor (deg * (pi / 180) and
    // deg / 180 * pi, say) shares its sine and cosine; both are 1-Lipschitz
    double cx, ct; std::vector<unsigned> bx, bt;
    bool same = false;
    for (auto& t : s.trig) if (z3::eq(t, x.e)) same = true;
    if (!same && oneMonomial(x.e, cx, bx)) for (auto& t : s.trig) {
      if (!oneMonomial(t, ct, bt) || bx != bt) continue;
      double rt = cx / ct;
      int k = std::fabs(rt) >= 0.9 ? (int)std::lround(rt) : (int)std::lround(1 / rt);
      if (k == 0 || std::abs(k) > 6) continue;
      double ideal = std::fabs(rt) >= 0.9 ? k : 1.0 / k, rel = std::fabs(rt / ideal - 1);
      if (rel > 1e-6) continue;
      if (rel > 1e-15 || k == 1) {
        x.err = up(x.err + up(mag(x.lo, x.hi) * (rel + 1e-15) * 1.01));
        x.e = k == 1 ? t : std::fabs(rt) >= 0.9 ? (Z->real_val(k) * t).simplify() : (t / Z->real_val(k)).simplify();
      }
      break;
    }
  }
  s.abstracted = true;
  string id = std::to_string(x.e.id());
  keep.push_back(x.e);
  z3::expr sn = Z->real_const(("sin!" + id).c_str()), cs = Z->real_const(("cos!" + id).c_str());
  if (O.cosfold) addDef(s, sn <= 1 && sn >= -1 && cs <= 1 && cs >= -1);
  else addDef(s, sn * sn + cs * cs == 1 && sn <= 1 && sn >= -1 && cs <= 1 && cs >= -1);
  if (O.cosfold && std::max(std::fabs(x.lo), std::fabs(x.hi)) < 1e4) {
    // u = +-f + 2*pi*n with f in [0, pi]; cos is decreasing in f
    auto foldOf = [&](const z3::expr& t) { return Z->real_const(("fold!" + std::to_string(t.id())).c_str()); };
    z3::expr f = foldOf(x.e), n = z3::expr(*Z, Z3_mk_int2real(*Z, Z->int_const(("turn!" + id).c_str())));
    z3::expr pi = realNum(3.14159265358979323846), e = realNum(1e-11);
    bool known = false;
    for (auto& t : s.trig) if (z3::eq(t, x.e)) known = true;
    if (!known) {
      double k = std::floor(x.lo / M_PI + 1e-9);
      z3::expr b2 = realNum(2 * std::floor((k + 1) / 2)) * pi;  // closest even multiple of pi
      if (x.hi <= (k + 1) * M_PI + 1e-9) addDef(s, f == (std::fmod(k, 2) == 0 ? x.e - b2 : b2 - x.e));
      else addDef(s, f >= 0 && f <= pi && (x.e == f + 2 * pi * n || x.e == -f + 2 * pi * n));
      addDef(s, z3::implies(f <= e, cs >= 1 - e) && z3::implies(f >= pi - e, cs <= -1 + e) && z3::implies(f <= pi / 2, cs >= -e) && z3::implies(f >= pi / 2, cs <= e));
      for (auto& t : s.trig) {
        z3::expr g = foldOf(t), ct = Z->real_const(("cos!" + std::to_string(t.id())).c_str());
        addDef(s, z3::implies(f <= g + e, cs >= ct - 4 * e) && z3::implies(g <= f + e, ct >= cs - 4 * e));
      }
    }
  }
  // multiple-angle relations with the other arguments on this path
  bool seen = false;
  for (auto& t : s.trig) if (z3::eq(t, x.e)) seen = true;
  if (!seen) {
    for (auto& t : s.trig) {
      string it = std::to_string(t.id());
      z3::expr tsn = Z->real_const(("sin!" + it).c_str()), tcs = Z->real_const(("cos!" + it).c_str());
      auto zero = [&](const z3::expr& e) { z3::params ps(*Z); ps.set("som", true); z3::expr r = e.simplify(ps); double q; return r.is_numeral() && r.is_numeral(q) && q == 0; };
      auto rel = [&](int k, const z3::expr& c1, const z3::expr& s1, const z3::expr& ck, const z3::expr& sk) {
        z3::expr c = Z->real_val(1), sN = Z->real_val(0);
        for (int i = 0; i < std::abs(k); i++) { z3::expr c2 = c * c1 - sN * s1; sN = sN * c1 + c * s1; c = c2; }
        addDef(s, (ck == c && sk == (k < 0 ? -sN : sN)));
      };
      bool done = false;
      for (int k : {-1, 2, 3, 4, 5, 6, -2, -3}) {
        if (done) break;
        if (zero(x.e - Z->real_val(k) * t)) { rel(k, tcs, tsn, cs, sn); done = true; }
        else if (zero(t - Z->real_val(k) * x.e)) { rel(k, cs, sn, tcs, tsn); done = true; }
      }
    }
    s.trig.push_back(x.e);
  }
  double u = 4 * unitOf(v.w);
  return mkReal(v.w, isCos ? cs : sn, up(x.err + u), -1, 1);
}
static Val realAbs(const Val& v) {
  RV x = toR(v);
  if (x.lo >= 0) return v;
  if (x.hi <= 0) return tmScale(mkReal(v.w, -x.e, x.err, -x.hi, -x.lo), x, -1);
  return mkReal(v.w, z3::ite(x.e >= 0, x.e, -x.e), x.err, 0, mag(x.lo, x.hi));
}
static Val realIte(const z3::expr& c, const Val& a, const Val& b, unsigned w) {
  RV x = toR(a), y = toR(b);
  return mkReal(w, z3::ite(c, x.e, y.e), std::max(x.err, y.err), std::min(x.lo, y.lo), std::max(x.hi, y.hi));
}
