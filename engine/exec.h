// Decoding and execution of instructions.
#pragma once
static Fn* getFn(const Function* F) {
  Fn*& f = fns[F];
  if (!f) { f = new Fn; f->F = F; }
  return f;
}
static std::unordered_map<string, Handler> handlers;
static std::set<string> stubsUsed;

static bool startsWith(const string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static bool isStub(const string& name, const Function& F) {
  ItaniumPartialDemangler D;
  if (D.partialDemangle(name.c_str())) {
    static const std::set<string> c{"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fwrite", "fputc"};
    return c.count(name);
  }
  if (!D.isFunction()) return false;
  auto get = [&](char* (ItaniumPartialDemangler::*m)(char*, size_t*) const) {
    size_t n = 0; char* b = (D.*m)(nullptr, &n); string r = b ? b : ""; free(b); return r;
  };
  string ctx = get(&ItaniumPartialDemangler::getFunctionDeclContextName);
  string par = get(&ItaniumPartialDemangler::getFunctionParameters);
  string base = get(&ItaniumPartialDemangler::getFunctionBaseName);
  if (startsWith(ctx, "std::__cxx11::")) ctx = "std::" + ctx.substr(14);
  for (const char* p : {"std::basic_ostream<", "std::basic_istream<", "std::basic_iostream<", "std::basic_ios<", "std::ios_base",
                        "std::locale", "std::basic_ostringstream<", "std::basic_istringstream<", "std::basic_stringstream<",
                        "std::basic_ofstream<", "std::basic_ifstream<", "std::basic_fstream<", "std::basic_stringbuf<",
                        "std::basic_filebuf<", "std::basic_streambuf<", "std::ostream", "std::istream", "std::ios", "std::ctype<",
                        "std::basic_ostringstream", "std::basic_stringstream", "std::basic_ifstream", "std::basic_ofstream"})
    if (startsWith(ctx, p)) return true;
  if (startsWith(ctx, "Eigen") && startsWith(base, "operator<<") && (startsWith(par, "(std::basic_ostream<") || startsWith(par, "(std::ostream&"))) return true;
  if (ctx == "std" || ctx == "") {
    for (const char* p : {"(std::basic_ostream<", "(std::ostream&", "(std::basic_istream<", "(std::istream&", "(std::basic_ios<", "(std::ios_base&", "(std::locale"})
      if (startsWith(par, p) && ctx == "std") return true;
  }
  return false;
}
static std::map<string, bool> dumpUnknown;

static void resolve(Fn* f) {
  string n = f->F->getName().str();
  if (f->F->isIntrinsic()) { f->kind = FK::Intrinsic; return; }
  auto it = handlers.find(n);
  if (it != handlers.end() && !(!f->F->isDeclaration() && n.find("_clock3nowEv") != string::npos)) { f->kind = FK::Handler; f->h = it->second; return; }
  if (!(O.io && !f->F->isDeclaration()) && isStub(n, *f->F)) { f->kind = FK::Stub; return; }
  f->kind = f->F->isDeclaration() ? FK::Unknown : FK::Body;
}

static void decode(Fn* f) {
  f->decoded = true;
  const Function* F = f->F;
  DenseMap<const Value*, int> slot;
  DenseMap<const BasicBlock*, int> bbi;
  int n = 0;
  for (auto& a : F->args()) slot[&a] = n++;
  int k = 0;
  for (auto& B : *F) { bbi[&B] = k++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  f->nslots = n;
  auto opn = [&](const Value* v) {
    Opnd o;
    auto it = slot.find(v);
    if (it != slot.end()) { o.slot = it->second; return o; }
    if (auto* c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o;
    throw Unsupported{"operand kind"};
  };
  for (auto& B : *F) {
    f->bbs.emplace_back();
    BBD& bd = f->bbs.back();
    bd.bb = &B;
    for (auto& I : B) {
      if (auto* ph = dyn_cast<PHINode>(&I)) {
        PhiD p; p.dst = slot[&I];
        for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) p.in.push_back({bbi[ph->getIncomingBlock(i)], opn(ph->getIncomingValue(i))});
        bd.phis.push_back(std::move(p));
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
        auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl ||
            id == Intrinsic::donothing || id == Intrinsic::assume || id == Intrinsic::prefetch || id == Intrinsic::var_annotation || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end) continue;
      }
      DI d; d.op = I.getOpcode(); d.I = &I; d.ty = I.getType();
      if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; d.w = widthOf(I.getType()); }
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) d.ops.push_back(opn(a));
        if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) d.callee = getFn(cf);
        else if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) {
          if (auto* cf2 = dyn_cast<Function>(ga->getAliaseeObject())) d.callee = getFn(cf2);
        } else d.ops.push_back(opn(cb->getCalledOperand()));
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { d.bbs = {bbi[iv->getNormalDest()], bbi[iv->getUnwindDest()]}; }
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getType()->isVectorTy()) throw Unsupported{"vector gep"};
        d.ops.push_back(opn(g->getPointerOperand()));
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          if (StructType* st = gi.getStructTypeOrNull()) { d.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
          else {
            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) d.imm += sc * ci->getSExtValue();
            else d.idx.push_back({opn(gi.getOperand()), sc});
          }
        }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) d.ops.push_back(opn(br->getCondition()));
        for (unsigned i = 0; i < br->getNumSuccessors(); i++) d.bbs.push_back(bbi[br->getSuccessor(i)]);
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        d.ops.push_back(opn(sw->getCondition()));
        d.bbs.push_back(bbi[sw->getDefaultDest()]);
        for (auto& c : sw->cases()) { d.cases.push_back(constVal(c.getCaseValue())); d.bbs.push_back(bbi[c.getCaseSuccessor()]); }
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
        d.imm = DL->getTypeAllocSize(al->getAllocatedType());
        if (al->isArrayAllocation()) d.ops.push_back(opn(al->getArraySize()));
      } else {
        for (auto& o : I.operands()) d.ops.push_back(opn(o.get()));
        if (isa<StoreInst>(&I)) d.ty = I.getOperand(0)->getType();
      }
      bd.ins.push_back(std::move(d));
    }
  }
}

static inline const Val& get(Frame& fr, const Opnd& o) { return o.slot >= 0 ? fr.regs[o.slot] : o.c; }

// ------------------------------------------------------------------ integer ops
static Val zextV(const Val& a, unsigned w) {
  if (a.w == w) return a;
  if (a.conc()) return Val::mk(a.c, w);
  if (a.k == Val::Bool) {
    if (a.p->hasF) throw Unsupported{"zext of inexact bool"};
    Val r = Val::node(Val::BV, w, z3::ite(a.p->e, Z->bv_val(1, w), Z->bv_val(0, w)));
    r.p->hasB = true; r.p->b = a.p->e; return r;
  }
  Val r = mkBV(z3::zext(toBV(a), w - a.w));
  if (!r.conc() && a.k == Val::BV && a.p->hasB) { r = zextV(mkBool(a.p->b), w); }
  return r;
}
static Val sextV(const Val& a, unsigned w) {
  if (a.w == w) return a;
  if (a.conc()) return w <= 64 ? Val::mk((uint64_t)sextw(a.c, a.w), w) : mkBV(z3::sext(toBV(a), w - a.w));
  if (a.k == Val::Bool) return mkBV(z3::ite(toBool(a), Z->bv_val(-1, w), Z->bv_val(0, w)));
  if (a.p->hasB && a.w > 1) return zextV(a, w);
  return mkBV(z3::sext(toBV(a), w - a.w));
}
static Val truncV(const Val& a, unsigned w) {
  if (a.w == w) return a;
  if (a.conc()) return Val::mk(a.c, w);
  if (w == 1) {
    if (a.k == Val::BV && a.p->hasB) return mkBool(a.p->b);
    return mkBool(toBV(a).extract(0, 0) == Z->bv_val(1, 1));
  }
  if (a.k == Val::BV && a.p->hasB) return zextV(mkBool(a.p->b), w);
  z3::expr e = toBV(a);
  // extract of zext/sext of narrower
  if (e.is_app()) {
    auto dk = e.decl().decl_kind();
    if (dk == Z3_OP_ZERO_EXT || dk == Z3_OP_SIGN_EXT) {
      z3::expr in = e.arg(0); unsigned iw = in.get_sort().bv_size();
      if (iw == w) return mkBV(in);
      if (iw > w) return mkBV(in.extract(w - 1, 0));
      return mkBV(dk == Z3_OP_ZERO_EXT ? z3::zext(in, w - iw) : z3::sext(in, w - iw));
    }
  }
  return mkBV(e.extract(w - 1, 0));
}
static Val notV(const Val& a) {
  if (a.conc()) return Val::mk(~a.c, a.w);
  if (a.k == Val::Bool) {
    if (a.p->hasF) { Val r = Val::node(Val::Bool, 1, a.p->f); r.p->hasF = true; r.p->f = a.p->e; return r; }
    return mkBool(!a.p->e);
  }
  return mkBV(~toBV(a));
}
static Val boolBin(unsigned op, const Val& a, const Val& b) {
  bool ie = (a.k == Val::Bool && a.p->hasF) || (b.k == Val::Bool && b.p->hasF);
  if (op == Instruction::And) {
    if (a.conc()) return a.c ? b : a;
    if (b.conc()) return b.c ? a : b;
    if (ie) return inexactBool(toBool(a) && toBool(b), exF(a) || exF(b));
    return mkBool(toBool(a) && toBool(b));
  }
  if (op == Instruction::Or) {
    if (a.conc()) return a.c ? a : b;
    if (b.conc()) return b.c ? b : a;
    if (ie) return inexactBool(toBool(a) || toBool(b), exF(a) && exF(b));
    return mkBool(toBool(a) || toBool(b));
  }
  if (op == Instruction::Xor || op == Instruction::Add || op == Instruction::Sub) {
    if (a.conc()) return a.c ? notV(b) : b;
    if (b.conc()) return b.c ? notV(a) : a;
    if (ie) return inexactBool((toBool(a) && exF(b)) || (exF(a) && toBool(b)), (toBool(a) && toBool(b)) || (exF(a) && exF(b)));
    return mkBool(!(toBool(a) == toBool(b)));
  }
  throw Unsupported{"i1 op"};
}
// Inexact booleans extended to integers keep kind Bool with width > 1.
static bool wideBool(const Val& a) { return a.k == Val::Bool && a.p->hasF && a.w > 1; }
// the value as a boolean when it is known to be 0 or 1
static bool asBool1(const Val& a, Val& r) {
  if (a.conc()) { if (a.c > 1) return false; r = Val::mk(a.c, 1); return true; }
  if (a.k == Val::Bool) { r = a; r.w = 1; return true; }
  if (a.k == Val::BV && a.p->hasB) { r = mkBool(a.p->b); return true; }
  return false;
}
static Val widen(Val b, unsigned w) {
  if (b.conc()) return Val::mk(b.c, w);
  if (b.k == Val::Bool && b.p->hasF) { b.w = (uint16_t)w; return b; }
  return zextV(b, w);
}
static Val fnegV(const Val& a);
static Val fabsV(const Val& a);
static Val intBin(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  // sign bit operations on the bits of a real number (signbit, fabs and negation by masks)
  if (isReal(a) && b.conc()) {
    const uint64_t sb = 1ULL << (w - 1);
    auto neg = [&]() { return decide(s, realCmp(s, CmpInst::FCMP_OLT, a, Val::mk(0, w))); };
    if (op == Instruction::LShr && b.c == w - 1) return Val::mk(neg() ? 1 : 0, w);
    if (op == Instruction::AShr && b.c == w - 1) return Val::mk(neg() ? ~0ULL : 0, w);
    if (op == Instruction::And && b.c == sb) return Val::mk(neg() ? sb : 0, w);
    if (op == Instruction::And && b.c == (sb - 1)) return fabsV(a);
    if (op == Instruction::Xor && b.c == sb) return fnegV(a);
  }
  if (wideBool(a) || wideBool(b)) {
    Val x, y;
    if ((op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && asBool1(a, x) && asBool1(b, y)) return widen(boolBin(op, x, y), w);
    Val u = wideBool(a) ? Val::mk(decide(s, a), w) : a;
    Val v = wideBool(b) ? Val::mk(decide(s, b), w) : b;
    return intBin(s, op, u, v, w);
  }
  if (w == 1 && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Add || op == Instruction::Sub)) return boolBin(op, a, b);
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = sextw(x, w), sy = sextw(y, w);
    unsigned sm = w <= 32 ? 31 : 63;
    switch (op) {
      case Instruction::Add: return Val::mk(x + y, w);
      case Instruction::Sub: return Val::mk(x - y, w);
      case Instruction::Mul: return Val::mk(x * y, w);
      case Instruction::UDiv: if (!y) throw Violation{"arith", "integer division by zero"}; return Val::mk(x / y, w);
      case Instruction::URem: if (!y) throw Violation{"arith", "integer division by zero"}; return Val::mk(x % y, w);
      case Instruction::SDiv:
        if (!y) throw Violation{"arith", "integer division by zero"};
        if (sy == -1) { if (w >= 32 && x == (1ULL << (w - 1))) throw Violation{"arith", "integer division overflow"}; return Val::mk(0 - x, w); }
        return Val::mk((uint64_t)(sx / sy), w);
      case Instruction::SRem:
        if (!y) throw Violation{"arith", "integer division by zero"};
        if (sy == -1) { if (w >= 32 && x == (1ULL << (w - 1))) throw Violation{"arith", "integer division overflow"}; return Val::mk(0, w); }
        return Val::mk((uint64_t)(sx % sy), w);
      case Instruction::Shl: y &= sm; return Val::mk(y >= 64 ? 0 : x << y, w);
      case Instruction::LShr: y &= sm; return Val::mk(x >> y, w);
      case Instruction::AShr: y &= sm; return Val::mk((uint64_t)(sx >> y), w);
      case Instruction::And: return Val::mk(x & y, w);
      case Instruction::Or: return Val::mk(x | y, w);
      case Instruction::Xor: return Val::mk(x ^ y, w);
    }
  }
  // identities
  if (b.conc() && b.w <= 64) {
    if (b.c == 0) {
      if (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) return a;
      if (op == Instruction::And || op == Instruction::Mul) return b;
    }
    if (b.c == 1 && (op == Instruction::Mul || op == Instruction::UDiv || op == Instruction::SDiv)) return a;
    if (b.c == maskw(w) && op == Instruction::And) return a;
    if (b.c == maskw(w) && op == Instruction::Xor) return notV(a);
    if (op == Instruction::And && b.c == 1 && a.k == Val::BV && a.p->hasB) return a;
    if (op == Instruction::Xor && b.c == 1 && a.k == Val::BV && a.p->hasB) return zextV(mkBool(!a.p->b), w);
  }
  if (a.conc() && a.w <= 64) {
    if (a.c == 0) {
      if (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor) return b;
      if (op == Instruction::And || op == Instruction::Mul || op == Instruction::Shl || op == Instruction::LShr) return a;
    }
    if (a.c == 1 && op == Instruction::Mul) return b;
    if (a.c == maskw(w) && op == Instruction::And) return b;
  }
  if (a.k == Val::BV && b.k == Val::BV && a.p->hasB && b.p->hasB && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor))
    return zextV(boolBin(op, mkBool(a.p->b), mkBool(b.p->b)), w);
  z3::expr x = toBV(a), y = toBV(b);
  bool div = op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem;
  if (div && O.divz) {
    if (decide(s, mkBool((y == Z->bv_val(0, w)).simplify()))) throw Violation{"arith", "integer division by zero"};
    if ((op == Instruction::SDiv || op == Instruction::SRem) && w >= 32) {
      z3::expr ov = (x == z3::shl(Z->bv_val(1, w), (int)(w - 1)) && y == Z->bv_val(-1, w)).simplify();
      if (decide(s, mkBool(ov))) throw Violation{"arith", "integer division overflow"};
    }
  }
  // x86 shift semantics: the count is taken modulo 32 (or 64)
  auto shc = [&]() -> z3::expr {
    if (b.conc()) { uint64_t c = b.c & (w <= 32 ? 31 : w <= 64 ? 63 : 127); return Z->bv_val((uint64_t)c, w); }
    if (w < 32) return y;
    return y & Z->bv_val((uint64_t)(w <= 32 ? 31 : w <= 64 ? 63 : 127), w);
  };
  switch (op) {
    case Instruction::Add: return mkBV(x + y);
    case Instruction::Sub: return mkBV(x - y);
    case Instruction::Mul: return mkBV(x * y);
    case Instruction::UDiv: return mkBV(z3::udiv(x, y));
    case Instruction::URem: return mkBV(z3::urem(x, y));
    case Instruction::SDiv: return mkBV(x / y);
    case Instruction::SRem: return mkBV(z3::srem(x, y));
    case Instruction::Shl: return mkBV(z3::shl(x, shc()));
    case Instruction::LShr: return mkBV(z3::lshr(x, shc()));
    case Instruction::AShr: return mkBV(z3::ashr(x, shc()));
    case Instruction::And: return mkBV(x & y);
    case Instruction::Or: return mkBV(x | y);
    case Instruction::Xor: return mkBV(x ^ y);
  }
  throw Unsupported{"int op"};
}
static Val icmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (isReal(a) && b.conc()) {
    if ((p == CmpInst::ICMP_SLT && b.c == 0)) return realCmp(s, CmpInst::FCMP_OLT, a, Val::mk(0, w));
    if ((p == CmpInst::ICMP_SGT && b.c == (~0ULL >> (64 - w))) || (p == CmpInst::ICMP_SGE && b.c == 0)) return realCmp(s, CmpInst::FCMP_OGE, a, Val::mk(0, w));
  }
  if (wideBool(a) || wideBool(b)) {
    Val x, y;
    if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && asBool1(a, x) && asBool1(b, y)) {
      Val r = boolBin(Instruction::Xor, x, y);
      return p == CmpInst::ICMP_NE ? r : notV(r);
    }
    Val u = wideBool(a) ? Val::mk(decide(s, a), w) : a;
    Val v = wideBool(b) ? Val::mk(decide(s, b), w) : b;
    return icmp(s, p, u, v);
  }
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c; int64_t sx = sextw(x, w), sy = sextw(y, w); bool r;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = !(x == y); break;
      case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; break;
    }
    return Val::mk(r, 1);
  }
  if (w == 1) {
    Val x = boolBin(Instruction::Xor, a, b);
    if (p == CmpInst::ICMP_NE) return x;
    if (p == CmpInst::ICMP_EQ) return notV(x);
    if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SGT) return boolBin(Instruction::And, notV(a), b);
    if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SLT) return boolBin(Instruction::And, a, notV(b));
    if (p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SGE) return boolBin(Instruction::Or, notV(a), b);
    return boolBin(Instruction::Or, a, notV(b));
  }
  if (a.k == Val::BV && a.p->hasB && b.conc()) {
    if (p == CmpInst::ICMP_EQ) return b.c == 0 ? mkBool(!a.p->b) : b.c == 1 ? mkBool(a.p->b) : Val::mk(0, 1);
    if (p == CmpInst::ICMP_NE) return b.c == 0 ? mkBool(a.p->b) : b.c == 1 ? mkBool(!a.p->b) : Val::mk(1, 1);
  }
  z3::expr x = toBV(a), y = toBV(b);
  if (z3::eq(x, y)) return Val::mk(CmpInst::isTrueWhenEqual(p), 1);
  z3::expr r(*Z);
  switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = !(x == y); break;
    case CmpInst::ICMP_UGT: r = z3::ugt(x, y); break; case CmpInst::ICMP_UGE: r = z3::uge(x, y); break;
    case CmpInst::ICMP_ULT: r = z3::ult(x, y); break; case CmpInst::ICMP_ULE: r = z3::ule(x, y); break;
    case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break;
    case CmpInst::ICMP_SLT: r = x < y; break; default: r = x <= y; break;
  }
  if (a.conc() || b.conc()) r = r.simplify();
  return mkBool(r);
}
// ------------------------------------------------------------------ floating point
static Val concFP(double d, unsigned w) { return w == 32 ? Val::mk(bitsF((float)d), 32) : Val::mk(bitsD(d), 64); }
static Val fbin(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  if (w != 32 && w != 64) throw Unsupported{"fp width"};
  if (isReal(a) || isReal(b)) return realBin(s, op, a, b, w);
  if (a.conc() && b.conc()) {
    if (w == 32) {
      float x = asF(a.c), y = asF(b.c);
      switch (op) { case Instruction::FAdd: return Val::mk(bitsF(x + y), 32); case Instruction::FSub: return Val::mk(bitsF(x - y), 32);
        case Instruction::FMul: return Val::mk(bitsF(x * y), 32); case Instruction::FDiv: return Val::mk(bitsF(x / y), 32); case Instruction::FRem: return Val::mk(bitsF(std::fmod(x, y)), 32); }
    } else {
      double x = asD(a.c), y = asD(b.c);
      switch (op) { case Instruction::FAdd: return Val::mk(bitsD(x + y), 64); case Instruction::FSub: return Val::mk(bitsD(x - y), 64);
        case Instruction::FMul: return Val::mk(bitsD(x * y), 64); case Instruction::FDiv: return Val::mk(bitsD(x / y), 64); case Instruction::FRem: return Val::mk(bitsD(std::fmod(x, y)), 64); }
    }
  }
  z3::expr rm = Z->fpa_rounding_mode(); 
  z3::expr x = toFP(a, w), y = toFP(b, w);
  switch (op) {
    case Instruction::FAdd: return mkFP(x + y);
    case Instruction::FSub: return mkFP(x - y);
    case Instruction::FMul: return mkFP(x * y);
    case Instruction::FDiv: return mkFP(x / y);
  }
  throw Unsupported{"symbolic frem"};
}
static Val fnegV(const Val& a) {
  unsigned w = a.w;
  if (a.conc()) return Val::mk(a.c ^ (1ULL << (w - 1)), w);
  if (isReal(a)) { RV x = toR(a); Val r = mkReal(w, -x.e, x.err, -x.hi, -x.lo); return tmScale(r, x, -1); }
  if (a.k == Val::FP && a.p->hasN) return mkFPN(a.p->n ^ Z->bv_val(0x80000000u, 32));
  if (a.k == Val::FP) return mkFP(-a.p->e);
  return mkBV(toBV(a) ^ Z->bv_val((uint64_t)1 << (w - 1), w));
}
static Val fabsV(const Val& a) {
  unsigned w = a.w;
  if (a.conc()) return Val::mk(a.c & ~(1ULL << (w - 1)), w);
  if (isReal(a)) return realAbs(a);
  if (a.k == Val::FP && a.p->hasN) return mkFPN(a.p->n & Z->bv_val(0x7fffffffu, 32));
  if (a.k == Val::FP) return mkFP(z3::abs(a.p->e));
  return mkBV(toBV(a) & Z->bv_val((uint64_t)(maskw(w) >> 1), w));
}
static Val fcmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (isReal(a) || isReal(b)) return realCmp(s, p, a, b);
  if (a.conc() && b.conc()) {
    double x = concD(a), y = concD(b);
    bool un = std::isnan(x) || std::isnan(y);
    bool r = false;
    switch (p) {
      case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
      case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break;
      case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; default: break;
    }
    return Val::mk(r, 1);
  }
  if (w == 64 && (a.k == Val::FP || b.k == Val::FP) && hasN(a) && hasN(b)) return fcmp(s, p, a.conc() ? Val::mk(bitsF((float)asD(a.c)), 32) : mkBV(narrow(a)), b.conc() ? Val::mk(bitsF((float)asD(b.c)), 32) : mkBV(narrow(b)));
  unsigned base = p >= 8 ? p - 8 : p;  // 0..7
  bool uno = p >= 8;
  z3::expr r(*Z);
  if (a.k != Val::FP && b.k != Val::FP) {
    // encode on the bits: total-order key, stays in QF_BV
    z3::expr x = toBV(a), y = toBV(b);
    uint64_t expm = w == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL;
    z3::expr mg = Z->bv_val((uint64_t)(maskw(w) >> 1), w), inf = Z->bv_val((uint64_t)expm, w), zero = Z->bv_val(0, w);
    z3::expr nan = z3::ugt(x & mg, inf) || z3::ugt(y & mg, inf);
    auto key = [&](const z3::expr& v) { return z3::ite(v >= zero, v, zero - (v & mg)); };  // signed key, -0 == +0
    z3::expr kx = key(x), ky = key(y);
    switch (base) {
      case 0: r = Z->bool_val(false); break;
      case 1: r = kx == ky; break; case 2: r = kx > ky; break; case 3: r = kx >= ky; break;
      case 4: r = kx < ky; break; case 5: r = kx <= ky; break; case 6: r = kx != ky; break; default: r = Z->bool_val(true);
    }
    // predicates 8..14 are the unordered variants of 0..6 (8 = UNO), 15 = TRUE
    r = (uno ? (nan || r) : (!nan && r)).simplify();
    return mkBool(r);
  }
  z3::expr x = toFP(a, w), y = toFP(b, w);
  z3::expr nan = x.mk_is_nan() || y.mk_is_nan();
  switch (base) {
    case 0: r = Z->bool_val(false); break;
    case 1: r = z3::fp_eq(x, y); break; case 2: r = x > y; break; case 3: r = x >= y; break;
    case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = !z3::fp_eq(x, y) && !nan; break; default: r = !nan; break;
  }
  if (p == CmpInst::FCMP_TRUE) return Val::mk(1, 1);
  return mkBool(uno ? (nan || r) : r);
}
static z3::expr RNE() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }
static z3::expr RTZ() { return z3::expr(*Z, Z3_mk_fpa_rtz(*Z)); }
static Val froundV(State& s, const Val& a, int mode) {  // 0 trunc 1 floor 2 ceil 3 round 4 rint
  unsigned w = a.w;
  if (a.conc()) {
    double x = concD(a);
    double r = mode == 0 ? std::trunc(x) : mode == 1 ? std::floor(x) : mode == 2 ? std::ceil(x) : mode == 3 ? std::round(x) : std::nearbyint(x);
    return concFP(r, w);
  }
  if (isReal(a)) return realFloor(s, a, mode);
  Z3_ast rm = mode == 0 ? Z3_mk_fpa_rtz(*Z) : mode == 1 ? Z3_mk_fpa_rtn(*Z) : mode == 2 ? Z3_mk_fpa_rtp(*Z) : mode == 3 ? Z3_mk_fpa_rna(*Z) : Z3_mk_fpa_rne(*Z);
  z3::expr rme(*Z, rm);
  return mkFP(z3::expr(*Z, Z3_mk_fpa_round_to_integral(*Z, rme, toFP(a, w))));
}
static Val selectV(State& s, const Val& c, const Val& a, const Val& b, bool ptr) {
  if (c.conc()) return c.c & 1 ? a : b;
  bool agg = a.k == Val::Agg || b.k == Val::Agg;
  bool inex = c.p->hasF || (a.k == Val::Bool && a.p->hasF) || (b.k == Val::Bool && b.p->hasF);
  if (a.w == 1 && !agg) {
    // select on booleans: (c & a) | (!c & b), also for inexact ones
    if (a.conc() && b.conc() && a.c == b.c) return a;
    if (inex || true) {
      Val l = boolBin(Instruction::And, c, a), r = boolBin(Instruction::And, notV(c), b);
      return boolBin(Instruction::Or, l, r);
    }
  }
  if (a.conc() && b.conc() && a.c == b.c) return a;
  if (inex && !agg && !ptr && a.w > 1) {
    Val x, y;
    if (asBool1(a, x) && asBool1(b, y)) {
      Val l = boolBin(Instruction::And, c, x), r = boolBin(Instruction::And, notV(c), y);
      return widen(boolBin(Instruction::Or, l, r), a.w);
    }
  }
  if (inex || agg || ptr) return decide(s, c) ? a : b;
  if (isReal(a) || isReal(b)) {
    if (isSpecial(a) || isSpecial(b)) return decide(s, c) ? a : b;
    return realIte(toBool(c), a, b, a.w);
  }
  z3::expr ce = toBool(c);
  auto it = s.dec.find(ce.id());
  if (it != s.dec.end()) return it->second ? a : b;
  if (a.w == 64 && (a.k == Val::FP || b.k == Val::FP) && hasN(a) && hasN(b)) return mkFPN(z3::ite(ce, narrow(a), narrow(b)));
  if (a.k == Val::FP || b.k == Val::FP) return mkFP(z3::ite(ce, toFP(a, a.w), toFP(b, a.w)));
  if (a.conc() && b.conc() && a.c == 1 && b.c == 0) return zextV(c, a.w);
  if (a.conc() && b.conc() && a.c == 0 && b.c == 1) return zextV(notV(c), a.w);
  z3::expr ea = toBV(a), eb = toBV(b);
  if (z3::eq(ea, eb)) return a;
  return mkBV(z3::ite(ce, ea, eb));
}

// ------------------------------------------------------------------ control
static void jump(State& s, int to) {
  Frame& fr = s.st.back();
  BBD& b = fr.fn->bbs[to];
  if (!b.phis.empty()) {
    SmallVector<Val, 8> tmp;
    for (auto& p : b.phis) {
      bool ok = false;
      for (auto& in : p.in) if (in.first == fr.bb) { tmp.push_back(get(fr, in.second)); ok = true; break; }
      if (!ok) throw Unsupported{"phi"};
    }
    for (size_t i = 0; i < b.phis.size(); i++) fr.regs[b.phis[i].dst] = tmp[i];
  }
  fr.bb = to; fr.ip = 0;
}
static string locOf(State& s) {
  string r;
  for (int i = (int)s.st.size() - 1; i >= 0 && i >= (int)s.st.size() - 8; i--) {
    Frame& f = s.st[i];
    if (f.ip >= (int)f.fn->bbs[f.bb].ins.size()) continue;
    const Instruction* I = f.fn->bbs[f.bb].ins[f.ip].I;
    string d = demangle(f.fn->F->getName().str());
    if (d.size() > 160) d = d.substr(0, 160) + "...";
    string l;
    if (DebugLoc dl = I->getDebugLoc()) { l = " " + dl->getFilename().str() + ":" + std::to_string(dl.getLine()); }
    r += (r.empty() ? "" : " <- ") + d + l;
  }
  return r;
}
static void pushFrame(State& s, Fn* f, const vector<Val>& args) {
  if (!f->decoded) decode(f);
  if (s.st.size() > 2000) throw Violation{"stack", "unbounded recursion"};
  f->execs++;
  s.st.emplace_back();
  Frame& fr = s.st.back();
  fr.fn = f;
  fr.regs.resize(f->nslots);
  for (size_t i = 0; i < args.size() && i < f->F->arg_size(); i++) fr.regs[i] = args[i];
}
static void popFrame(State& s) {
  for (uint64_t a : s.st.back().allocas) s.mem.erase(a);
  s.st.pop_back();
}
static void retTo(State& s, const Val& v, bool hasV) {
  // the caller's ip points at the call
  Frame& fr = s.st.back();
  const DI& d = fr.fn->bbs[fr.bb].ins[fr.ip];
  if (d.dst >= 0) { if (!hasV) throw Unsupported{"missing return value"}; fr.regs[d.dst] = v; }
  if (d.op == Instruction::Invoke) jump(s, d.bbs[0]); else fr.ip++;
}
// exceptions
static const GlobalVariable* tiGlobal(uint64_t a) { auto it = tiOf.find(a); return it == tiOf.end() ? nullptr : it->second; }
static string stdBase(const string& n) {
  static const std::map<string, string> m{{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  auto it = m.find(n); return it == m.end() ? "" : it->second;
}
static std::map<uint64_t, string> tiName;
static bool tiMatch(uint64_t thrown, uint64_t want, int64_t& adj) {
  if (thrown == want) return true;
  string wn = tiName.count(want) ? tiName[want] : "", tn = tiName.count(thrown) ? tiName[thrown] : "";
  for (string b = tn; !b.empty(); b = stdBase(b)) if (b == wn) return true;
  const GlobalVariable* g = tiGlobal(thrown);
  if (!g || !g->hasInitializer()) return false;
  auto* c = dyn_cast<ConstantStruct>(g->getInitializer());
  if (!c) return false;
  for (unsigned i = 2; i < c->getNumOperands(); i++) {
    auto* b = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts());
    if (!b) continue;
    int64_t a2 = adj;
    if (c->getNumOperands() > 3 && i + 1 < c->getNumOperands()) if (auto* ci = dyn_cast<ConstantInt>(c->getOperand(i + 1))) {
      if (ci->getBitWidth() == 64) { if (ci->getZExtValue() & 1) continue; a2 += ci->getSExtValue() >> 8; }
    }
    if (tiMatch(gaddr[b], want, a2)) { adj = a2; return true; }
  }
  return false;
}
static void unwind(State& s) {
  // the top frame is the one containing the throwing call (ip at the call)
  while (!s.st.empty()) {
    Frame& fr = s.st.back();
    const DI& d = fr.fn->bbs[fr.bb].ins[fr.ip];
    if (d.op == Instruction::Invoke) {
      const BBD& lb = fr.fn->bbs[d.bbs[1]];
      const LandingPadInst* lp = lb.bb->getLandingPadInst();
      int sel = -1; int64_t adj = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        if (lp->isCatch(i)) {
          auto* c = lp->getClause(i)->stripPointerCasts();
          if (isa<ConstantPointerNull>(c)) { sel = 1000000; break; }
          uint64_t ta = constVal(cast<Constant>(c)).c;
          adj = 0;
          if (tiMatch(s.excTI, ta, adj)) sel = (int)(ta & 0x7fffffff);
        }
      }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        jump(s, d.bbs[1]);
        Frame& f2 = s.st.back();
        // the landingpad instruction is decoded as first non-phi
        const DI& l = f2.fn->bbs[f2.bb].ins[0];
        f2.regs[l.dst] = mkAgg({Val::mk(s.excPtr + (sel ? adj : 0), 64), Val::mk(sel, 32)});
        f2.ip = 1;
        return;
      }
    }
    popFrame(s);
  }
  string n = tiName.count(s.excTI) ? demangle(tiName[s.excTI]) : "?";
  throw Violation{"exception", "uncaught exception " + n};
}
static void throwStd(State& s, const string& ti) {
  s.excPtr = allocObj(s, 64, 'h', true, "exception");
  auto* g = M->getNamedGlobal(ti);
  if (g) s.excTI = gaddr[g];
  else {
    s.excTI = 0;
    for (auto& kv : tiName) if (kv.second == ti) s.excTI = kv.first;
    if (!s.excTI) { static uint64_t nx = 0x7000000; nx += 64; tiName[nx] = ti; s.excTI = nx; }
  }
  unwind(s);
}

#include "calls.h"

static Val evalVec(State& s, const DI& d, const std::function<Val(const vector<Val>&)>& f, const vector<Val>& a) {
  size_t n = 0; for (auto& v : a) if (v.k == Val::Agg) n = v.p->agg->size();
  vector<Val> r;
  for (size_t i = 0; i < n; i++) { vector<Val> e; for (auto& v : a) e.push_back(v.k == Val::Agg ? (*v.p->agg)[i] : v); r.push_back(f(e)); }
  return mkAgg(r);
}
static Val castOp(State& s, const DI& d, const Val& a0, unsigned sw, unsigned dw, Type* st, Type* dt) {
  const Val a = wideBool(a0) && d.op != Instruction::ZExt && d.op != Instruction::Trunc && !(d.op == Instruction::SExt && dw > sw) ? Val::mk(decide(s, a0), a0.w) : a0;
  switch (d.op) {
    case Instruction::ZExt: if (a.k == Val::Bool && a.p->hasF) return widen(a, dw); return zextV(a, dw);
    case Instruction::SExt: if (wideBool(a)) return widen(a, dw); if (a.k == Val::Bool && a.p->hasF) return Val::mk(decide(s, a) ? ~0ULL : 0, dw); return sextV(a, dw);
    case Instruction::Trunc: if (wideBool(a)) return widen(a, dw); return truncV(a, dw);
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      if (a.w == dw) return a;
      return a.w < dw ? zextV(a, dw) : truncV(a, dw);
    case Instruction::FPExt: case Instruction::FPTrunc:
      if (sw > 64 || dw > 64) throw Unsupported{"fp80"};
      if (a.conc()) return concFP(concD(a), dw);
      if (isReal(a)) { RV x = toR(a); Val r = mkReal(dw, x.e, d.op == Instruction::FPTrunc ? rnd(dw, x.lo, x.hi, x.err) : x.err, x.lo, x.hi); return tmScale(r, x, 1); }
      if (d.op == Instruction::FPExt && sw == 32 && dw == 64 && a.k == Val::BV) return mkFPN(toBV(a));
      if (d.op == Instruction::FPTrunc && dw == 32 && a.k == Val::FP && a.p->hasN) return mkBV(a.p->n);
      return mkFP(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, RNE(), toFP(a, sw), fpSort(dw))));
    case Instruction::SIToFP: case Instruction::UIToFP: {
      bool sg = d.op == Instruction::SIToFP;
      Val x = a;
      if (!x.conc() && (O.logic == "real" || x.k == Val::Bool)) x = Val::mk(concretize(s, x), x.w);
      if (x.conc()) {
        if (dw == 32) return Val::mk(bitsF(sg ? (float)sextw(x.c, sw) : (float)x.c), 32);
        return Val::mk(bitsD(sg ? (double)sextw(x.c, sw) : (double)x.c), 64);
      }
      if (sg) return mkFP(z3::expr(*Z, Z3_mk_fpa_to_fp_signed(*Z, RNE(), toBV(x), fpSort(dw))));
      return mkFP(z3::expr(*Z, Z3_mk_fpa_to_fp_unsigned(*Z, RNE(), toBV(x), fpSort(dw))));
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      bool sg = d.op == Instruction::FPToSI;
      if (a.conc()) {
        double x = concD(a);
        if (sg) {
          if (!(x > -9.3e18 && x < 9.2233720368547758e18)) return Val::mk(1ULL << (dw - 1), dw);
          if (dw <= 32 && !(x > -2147483649.0 && x < 2147483648.0)) return Val::mk(0x80000000u, dw);
          return Val::mk((uint64_t)(int64_t)x, dw);
        }
        if (!(x > -9.3e18 && x < 1.8446744073709552e19)) return Val::mk(0, dw);
        return Val::mk(x < 0 ? (uint64_t)(int64_t)x : (uint64_t)x, dw);
      }
      if (isReal(a)) return Val::mk((uint64_t)realToInt(s, a, 0), dw);
      // out-of-range conversions give the x86 "integer indefinite" value
      z3::expr f = toFP(a, sw);
      if (sg) {
        unsigned cw = dw < 32 ? 32 : dw;
        z3::expr lo = z3::expr(*Z, Z3_mk_fpa_numeral_double(*Z, cw == 32 ? -2147483648.0 : -9223372036854775808.0, fpSort(sw)));
        z3::expr hi = z3::expr(*Z, Z3_mk_fpa_numeral_double(*Z, cw == 32 ? 2147483648.0 : 9223372036854775808.0, fpSort(sw)));
        z3::expr tr(*Z, Z3_mk_fpa_round_to_integral(*Z, RTZ(), f));
        z3::expr ok = tr >= lo && tr < hi;
        z3::expr v = z3::ite(ok, z3::expr(*Z, Z3_mk_fpa_to_sbv(*Z, RTZ(), f, cw)), Z->bv_val((uint64_t)1 << (cw - 1), cw));
        Val r = mkBV(v);
        return cw == dw ? r : truncV(r, dw);
      }
      z3::expr v(*Z, Z3_mk_fpa_to_ubv(*Z, RTZ(), f, dw));
      return mkBV(v);
    }
  }
  throw Unsupported{"cast"};
}

static void step(State& s) {
  Frame& fr = s.st.back();
  const DI& d = fr.fn->bbs[fr.bb].ins[fr.ip];
  S.instr++; s.instr++;
  if (s.instr > O.maxInstr) throw Violation{"hang", "instruction limit exceeded (possible non-termination)"};
  switch (d.op) {
    case Instruction::Ret: {
      bool hv = !d.ops.empty(); Val v; if (hv) v = get(fr, d.ops[0]);
      popFrame(s);
      if (s.st.empty()) throw PathEnd{"done"};
      retTo(s, v, hv);
      return;
    }
    case Instruction::Br: {
      if (d.ops.empty()) { jump(s, d.bbs[0]); return; }
      bool t = decide(s, get(fr, d.ops[0]));
      jump(s, t ? d.bbs[0] : d.bbs[1]);
      return;
    }
    case Instruction::Switch: {
      const Val v = get(fr, d.ops[0]);
      for (size_t i = 0; i < d.cases.size(); i++) {
        Val c = icmp(s, CmpInst::ICMP_EQ, v, d.cases[i]);
        if (decide(s, c)) { jump(s, d.bbs[i + 1]); return; }
      }
      jump(s, d.bbs[0]);
      return;
    }
    case Instruction::Unreachable: throw Violation{"unreachable", "unreachable code reached (undefined behaviour)"};
    case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
    case Instruction::Resume: {
      const Val& v = get(fr, d.ops[0]);
      (void)v;
      popFrame(s);
      if (s.st.empty()) throw Violation{"exception", "uncaught exception"};
      unwind(s);
      return;
    }
    case Instruction::LandingPad: throw Unsupported{"landingpad"};
    case Instruction::Alloca: {
      uint64_t n = d.imm;
      if (!d.ops.empty()) n *= concretize(s, get(fr, d.ops[0]));
      uint64_t a = allocObj(s, n, 's', false, "local", 16);
      fr.allocas.push_back(a);
      fr.regs[d.dst] = Val::mk(a, 64);
      break;
    }
    case Instruction::Load: {
      const Val& a = get(fr, d.ops[0]);
      Val r = a.conc() ? loadConc(s, a.c, d.ty) : loadSym(s, a, d.ty);
      fr.regs[d.dst] = r;
      break;
    }
    case Instruction::Store: {
      Val v = get(fr, d.ops[0]);
      const Val& a = get(fr, d.ops[1]);
      if (v.k == Val::Bool && v.p->hasF) v = Val::mk(decide(s, v), v.w);
      uint64_t ad = concretize(s, a);
      storeConc(s, ad, d.ty, v);
      break;
    }
    case Instruction::GetElementPtr: {
      const Val& b = get(fr, d.ops[0]);
      bool allc = b.conc();
      for (auto& ix : d.idx) { const Val& v = get(fr, ix.first); if (wideBool(v)) { Val c1 = Val::mk(decide(s, v), v.w); fr.regs[ix.first.slot] = c1; } }
      uint64_t c = (b.conc() ? b.c : 0) + d.imm;
      for (auto& ix : d.idx) { const Val& v = get(fr, ix.first); if (v.conc()) c += sextw(v.c, v.w) * ix.second; else allc = false; }
      if (allc) { fr.regs[d.dst] = Val::mk(c, 64); break; }
      z3::expr e = b.conc() ? Z->bv_val((uint64_t)c, 64) : (c ? toBV(b) + Z->bv_val((uint64_t)c, 64) : toBV(b));
      for (auto& ix : d.idx) {
        const Val& v = get(fr, ix.first);
        if (v.conc()) continue;
        z3::expr x = toBV(v.w < 64 ? sextV(v, 64) : v);
        e = e + (ix.second == 1 ? x : x * Z->bv_val((uint64_t)ix.second, 64));
      }
      fr.regs[d.dst] = mkBV(e);
      break;
    }
    case Instruction::ICmp: {
      const Val &a = get(fr, d.ops[0]), &b = get(fr, d.ops[1]);
      auto p = cast<CmpInst>(d.I)->getPredicate();
      if (a.k == Val::Agg) fr.regs[d.dst] = evalVec(s, d, [&](const vector<Val>& e) { return icmp(s, p, e[0], e[1]); }, {a, b});
      else fr.regs[d.dst] = icmp(s, p, a, b);
      break;
    }
    case Instruction::FCmp: {
      const Val &a = get(fr, d.ops[0]), &b = get(fr, d.ops[1]);
      auto p = cast<CmpInst>(d.I)->getPredicate();
      if (a.k == Val::Agg) fr.regs[d.dst] = evalVec(s, d, [&](const vector<Val>& e) { return fcmp(s, p, e[0], e[1]); }, {a, b});
      else fr.regs[d.dst] = fcmp(s, p, a, b);
      break;
    }
    case Instruction::Select: {
      const Val c = get(fr, d.ops[0]); const Val a = get(fr, d.ops[1]), b = get(fr, d.ops[2]);
      if (c.k == Val::Agg) fr.regs[d.dst] = evalVec(s, d, [&](const vector<Val>& e) { return selectV(s, e[0], e[1], e[2], false); }, {c, a, b});
      else fr.regs[d.dst] = selectV(s, c, a, b, d.ty->isPointerTy());
      break;
    }
    case Instruction::Freeze: fr.regs[d.dst] = get(fr, d.ops[0]); break;
    case Instruction::FNeg: {
      const Val& a = get(fr, d.ops[0]);
      fr.regs[d.dst] = a.k == Val::Agg ? evalVec(s, d, [&](const vector<Val>& e) { return fnegV(e[0]); }, {a}) : fnegV(a);
      break;
    }
    case Instruction::ExtractValue: {
      Val v = get(fr, d.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = (*v.p->agg)[i]; v = t; }
      fr.regs[d.dst] = v;
      break;
    }
    case Instruction::InsertValue: {
      std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins = [&](const Val& a, ArrayRef<unsigned> ix, const Val& x) -> Val {
        if (ix.empty()) return x;
        vector<Val> c = *a.p->agg; c[ix[0]] = ins(c[ix[0]], ix.slice(1), x); return mkAgg(c);
      };
      fr.regs[d.dst] = ins(get(fr, d.ops[0]), cast<InsertValueInst>(d.I)->getIndices(), get(fr, d.ops[1]));
      break;
    }
    case Instruction::ExtractElement: {
      const Val v = get(fr, d.ops[0]); uint64_t i = concretize(s, get(fr, d.ops[1]));
      if (i >= v.p->agg->size()) throw Unsupported{"extractelement index"};
      fr.regs[d.dst] = Val((*v.p->agg)[i]);
      break;
    }
    case Instruction::InsertElement: {
      vector<Val> c = *get(fr, d.ops[0]).p->agg; uint64_t i = concretize(s, get(fr, d.ops[2]));
      if (i >= c.size()) throw Unsupported{"insertelement index"};
      c[i] = get(fr, d.ops[1]); fr.regs[d.dst] = mkAgg(c);
      break;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(d.I);
      const vector<Val> a = *get(fr, d.ops[0]).p->agg, b = *get(fr, d.ops[1]).p->agg; vector<Val> r;
      Type* et = cast<VectorType>(d.ty)->getElementType();
      for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? freshVal(et, "undef") : m < (int)a.size() ? a[m] : b[m - a.size()]);
      fr.regs[d.dst] = mkAgg(r);
      break;
    }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: {
      auto* rm = cast<AtomicRMWInst>(d.I);
      uint64_t ad = concretize(s, get(fr, d.ops[0])); Val v = get(fr, d.ops[1]);
      Val old = loadConc(s, ad, rm->getValOperand()->getType()), nv;
      switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = intBin(s, Instruction::Add, old, v, old.w); break;
        case AtomicRMWInst::Sub: nv = intBin(s, Instruction::Sub, old, v, old.w); break;
        default: throw Unsupported{"atomicrmw"};
      }
      storeConc(s, ad, rm->getValOperand()->getType(), nv);
      fr.regs[d.dst] = old;
      break;
    }
    default:
      if (Instruction::isCast(d.op)) {
        const Val a = get(fr, d.ops[0]);
        Type* st = d.I->getOperand(0)->getType();
        if (a.k == Val::Agg || d.ty->isVectorTy()) {
          if (d.op == Instruction::BitCast) {
            // reinterpret through memory
            uint64_t t = allocObj(s, std::max(DL->getTypeAllocSize(st), DL->getTypeAllocSize(d.ty)), 's', false, "cast");
            storeConc(s, t, st, a); Val r = loadConc(s, t, d.ty); s.mem.erase(t); fr.regs[d.dst] = r;
          } else {
            Type* se = cast<VectorType>(st)->getElementType(); Type* de = cast<VectorType>(d.ty)->getElementType();
            fr.regs[d.dst] = evalVec(s, d, [&](const vector<Val>& e) { return castOp(s, d, e[0], widthOf(se), widthOf(de), se, de); }, {a});
          }
        } else fr.regs[d.dst] = castOp(s, d, a, widthOf(st), d.w, st, d.ty);
        break;
      }
      if (Instruction::isBinaryOp(d.op)) {
        const Val a = get(fr, d.ops[0]), b = get(fr, d.ops[1]);
        bool isf = d.ty->isFPOrFPVectorTy();
        if (a.k == Val::Agg) {
          unsigned ew = widthOf(cast<VectorType>(d.ty)->getElementType());
          fr.regs[d.dst] = evalVec(s, d, [&](const vector<Val>& e) { return isf ? fbin(s, d.op, e[0], e[1], ew) : intBin(s, d.op, e[0], e[1], ew); }, {a, b});
        } else fr.regs[d.dst] = isf ? fbin(s, d.op, a, b, d.w) : intBin(s, d.op, a, b, d.w);
        break;
      }
      throw Unsupported{string("instruction ") + d.I->getOpcodeName()};
  }
  s.st.back().ip++;
}
