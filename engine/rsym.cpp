// rsym: bounded symbolic execution of LLVM IR with z3.
#include "val.h"
#include "mem.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/SmallString.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <cfenv>

using namespace llvm;
using std::string; using std::vector;

z3::context* Z;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ options
struct Options {
  string bc, entry, out;
  std::map<string, int64_t> params;
  string logic = "bv";        // bv | fp | real
  unsigned qtimeout = 60000;  // ms, per query
  double budget = 600;        // s, whole run
  uint64_t maxInstr = 20000000;  // per path
  unsigned maxPaths = 2000000;
  unsigned maxViol = 6;
  unsigned samples = 8;
  unsigned seed = 1;
  bool iteLoads = true;
  bool hangIsViolation = true;
  bool divz = true;
  bool slice = true;
  int verbose = 0;
  unsigned maxEnum = 4096;
  bool io = false, cosfold = false, taylor = false; unsigned tm = 0;
  bool snan = false;
} O;

struct Stats {
  uint64_t instr = 0, queries = 0, qsat = 0, qunsat = 0, qunk = 0, paths = 0, infeasible = 0, forks = 0,
           checks = 0, checkUnsat = 0, checkConc = 0, checkUnk = 0, assumed = 0, modelHits = 0;
  double solver = 0, maxq = 0; unsigned badModel = 0;
} S;

// ------------------------------------------------------------------ decoded IR
struct Opnd { int slot = -1; Val c; };
struct Fn;
struct DI {
  unsigned op = 0;
  int dst = -1;
  unsigned w = 0;       // result width in bits
  Type* ty = nullptr;   // result type or accessed type
  const Instruction* I = nullptr;
  vector<Opnd> ops;
  int64_t imm = 0;                       // GEP const offset, alloca size, ...
  vector<std::pair<Opnd, int64_t>> idx;  // GEP variable indices (index, scale)
  vector<int> bbs;
  vector<Val> cases;
  Fn* callee = nullptr;
};
struct PhiD { int dst; vector<std::pair<int, Opnd>> in; };
struct BBD { vector<PhiD> phis; vector<DI> ins; const BasicBlock* bb; };
struct State;
typedef std::function<bool(State&, const DI&, const vector<Val>&, Val&)> Handler;
enum class FK { Unresolved, Body, Handler, Stub, Intrinsic, Unknown };
struct Fn {
  const Function* F = nullptr;
  FK kind = FK::Unresolved;
  bool decoded = false;
  int nslots = 0;
  vector<BBD> bbs;
  Handler h;
  string stubName;
  uint64_t execs = 0;
};

// ------------------------------------------------------------------ state
struct Frame {
  Fn* fn = nullptr;
  vector<Val> regs;
  int bb = 0, ip = 0;
  vector<uint64_t> allocas;
};
struct Input { string name; char kind; unsigned bits; Val v; double lo = 0, hi = 0; };
struct Obs { string tag; bool dbl; Val v; };
struct State {
  vector<Frame> st;
  std::map<uint64_t, std::shared_ptr<Obj>> mem;
  uint64_t nextAddr = 0x40000000;
  vector<z3::expr> pc;
  std::map<unsigned, uint64_t> dec;   // ast id -> decided value
  std::set<unsigned> defs;            // ids of global definitions already in pc
  std::shared_ptr<z3::model> model;
  bool modelOk = false;
  vector<Input> inputs;
  vector<Obs> obs;
  std::set<string> reached;
  uint64_t instr = 0;
  uint64_t excPtr = 0, excTI = 0;  // current exception
  vector<std::pair<uint64_t, uint64_t>> caught;
  uint64_t lastClock = 0; Val clock;
  bool abstracted = false;  // uses axiomatised functions: not natively comparable
  uint64_t uncaughtOk = 0;
  vector<z3::expr> trig;    // arguments of abstract sin/cos on this path
};

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static DenseMap<const Function*, Fn*> fns;
static DenseMap<const GlobalVariable*, uint64_t> gaddr;
static std::map<uint64_t, Fn*> faddr;
static DenseMap<const Function*, uint64_t> faddrOf;
static vector<State*> work;
static std::map<uint64_t, const GlobalVariable*> tiOf;  // address -> typeinfo global
static double tStart;
static std::map<string, int> tiIds;

struct VRec { string kind, msg, loc; vector<std::pair<string, string>> in; string stack; bool abstracted; };
static vector<VRec> viols;
static vector<string> undecided;
struct Sample { vector<std::pair<string, string>> in; vector<std::pair<string, string>> obs; bool abstracted; };
static vector<Sample> samples;
static std::set<string> reachedAll;
static bool stopAll = false;

// ------------------------------------------------------------------ solver
static std::unique_ptr<z3::solver> inc;
static vector<z3::expr> asserted;
static void resetInc() {
  inc.reset();
  asserted.clear();
  if (O.logic == "bvi") inc.reset(new z3::solver(*Z, "QF_BV"));
  else if (O.logic == "bvs") inc.reset(new z3::solver(*Z, z3::solver::simple()));
  else inc.reset(new z3::solver(*Z, z3::solver::simple()));
  z3::params p(*Z);
  p.set("timeout", O.qtimeout);
  inc->set(p);
}
static vector<z3::expr> keep;  // keeps ast ids alive
enum R3 { UNSAT = 0, SAT = 1, UNK = 2 };

static std::unordered_map<unsigned, std::shared_ptr<vector<unsigned>>> varsCache;
static vector<z3::expr> varsKeep;
static std::unordered_map<unsigned, z3::expr*> symById;
static std::shared_ptr<vector<unsigned>> varsOf(const z3::expr& e) {
  auto it = varsCache.find(e.id());
  if (it != varsCache.end()) return it->second;
  std::set<unsigned> out; std::unordered_set<unsigned> seen; vector<z3::expr> stk{e};
  while (!stk.empty()) {
    z3::expr x = stk.back(); stk.pop_back();
    if (!seen.insert(x.id()).second) continue;
    if (x.is_app()) {
      if (x.num_args() == 0) {
        if (x.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
          out.insert(x.id());
          if (!symById.count(x.id())) symById[x.id()] = new z3::expr(x);
        }
      } else for (unsigned i = 0; i < x.num_args(); i++) stk.push_back(x.arg(i));
    }
  }
  auto r = std::make_shared<vector<unsigned>>(out.begin(), out.end());
  varsCache[e.id()] = r;
  varsKeep.push_back(e);
  return r;
}

static R3 runTactic(const vector<z3::expr>& as, z3::tactic t, unsigned ms, std::shared_ptr<z3::model>& m) {
  z3::solver s = z3::try_for(t, ms).mk_solver();
  z3::params p(*Z); p.set("timeout", ms); s.set(p);
  for (auto& a : as) s.add(a);
  try {
    auto r = s.check();
    if (r == z3::sat) { m = std::make_shared<z3::model>(s.get_model()); return SAT; }
    if (r == z3::unsat) return UNSAT;
  } catch (z3::exception& ex) { if (O.verbose) std::cerr << "z3: " << ex.msg() << "\n"; }
  return UNK;
}

static R3 query(State& s, const z3::expr& extra, std::shared_ptr<z3::model>& m, unsigned ms = 0) {
  double t0 = now();
  if (t0 - tStart > O.budget) { stopAll = true; undecided.push_back("time budget exhausted"); throw PathEnd{"budget"}; }
  if (!ms) ms = O.qtimeout;
  S.queries++;
  R3 r = UNK;
  if (O.logic == "bvi" || O.logic == "bvs") {
    size_t k = 0;
    while (k < asserted.size() && k < s.pc.size() && asserted[k].id() == s.pc[k].id()) k++;
    if (asserted.size() > k) { inc->pop(asserted.size() - k); asserted.resize(k, Z->bool_val(true)); }
    for (; k < s.pc.size(); k++) { inc->push(); inc->add(s.pc[k]); asserted.push_back(s.pc[k]); }
    inc->push();
    inc->add(extra);
    auto res = z3::unknown;
    try { res = inc->check(); } catch (z3::exception& ex) { if (O.verbose) std::cerr << "z3: " << ex.msg() << "\n"; }
    if (res == z3::sat) { m = std::make_shared<z3::model>(inc->get_model()); r = SAT; }
    else if (res == z3::unsat) r = UNSAT;
    inc->pop();
    if (r == SAT) {  // the incremental solver's model must satisfy the query
      bool ok = m->eval(extra, true).is_true();
      for (auto& e : s.pc) if (ok && !m->eval(e, true).is_true()) ok = false;
      if (!ok) { if (O.verbose) std::cerr << "bad incremental model, re-solving\n"; S.badModel++; r = UNK; }
    }
    if (r == UNK) {
      vector<z3::expr> as = s.pc; as.push_back(extra);
      r = runTactic(as, z3::tactic(*Z, "qfbv"), ms, m);
    }
  } else {
    // sliced, fresh query
    vector<z3::expr> as;
    vector<char> inS(s.pc.size(), 0);
    bool sliced = false;
    if (O.slice && s.modelOk && s.model) {
      std::set<unsigned> vs; for (unsigned v : *varsOf(extra)) vs.insert(v);
      bool ch = true;
      while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++) if (!inS[i]) {
          auto pv = varsOf(s.pc[i]);
          bool hit = false;
          for (unsigned v : *pv) if (vs.count(v)) { hit = true; break; }
          if (hit) { inS[i] = 1; ch = true; for (unsigned v : *pv) vs.insert(v); }
        }
      }
      for (size_t i = 0; i < s.pc.size(); i++) { if (inS[i]) as.push_back(s.pc[i]); else sliced = true; }
    } else as = s.pc;
    as.push_back(extra);
    std::shared_ptr<z3::model> mm;
    if (O.logic == "bv") {
      r = runTactic(as, z3::tactic(*Z, "qfbv"), ms, mm);
    } else if (O.logic == "fp") {
      r = runTactic(as, z3::tactic(*Z, "qffpbv"), ms, mm);
    } else {
      // real arithmetic: quick smt core first, then nlsat, then longer
      bool dbg = getenv("RSYM_QD") != nullptr;
      r = runTactic(as, z3::tactic(*Z, "smt"), std::min(ms, 2000u), mm);
      if (r == UNK) r = runTactic(as, z3::tactic(*Z, "qfnra-nlsat"), std::min(ms, 10000u), mm);
      if (r == UNK) r = runTactic(as, z3::tactic(*Z, "smt"), ms, mm);
      if (r == UNK) r = runTactic(as, z3::tactic(*Z, "qfnra"), ms, mm);
      if (dbg) std::cerr << "q " << r << " " << now() - t0 << "\n";
    }
    if (r == SAT) {
      if (sliced && s.model) {
        // composite model: slice from the new model, rest from the old one
        z3::model cm(*Z);
        std::set<unsigned> done;
        for (auto& a : as) for (unsigned v : *varsOf(a)) if (done.insert(v).second) {
          z3::expr c = *symById[v];
          z3::func_decl d = c.decl();
          z3::expr val = mm->eval(c, true);
          Z3_add_const_interp(*Z, cm, d, val);
        }
        for (unsigned i = 0; i < s.model->num_consts(); i++) {
          z3::func_decl d = s.model->get_const_decl(i);
          if (done.count(z3::expr(d()).id())) continue;
          z3::expr val = s.model->get_const_interp(d);
          Z3_add_const_interp(*Z, cm, d, val);
        }
        m = std::make_shared<z3::model>(cm);
      } else m = mm;
    }
  }
  double dt = now() - t0;
  S.solver += dt;
  if (dt > S.maxq) S.maxq = dt;
  if (dt > 3 && getenv("RSYM_DUMP")) {
    static int dn = 0;
    z3::solver d(*Z); for (auto& e : s.pc) d.add(e); d.add(extra);
    std::ofstream f(string(getenv("RSYM_DUMP")) + "/q" + std::to_string(dn++) + "_" + std::to_string((int)dt) + ".smt2");
    f << d.to_smt2();
  }
  if (O.verbose > 1 && dt > 1) std::cerr << "slow query " << dt << " -> " << r << "\n";
  if (r == SAT) S.qsat++; else if (r == UNSAT) S.qunsat++; else S.qunk++;
  return r;
}

static void addPc(State& s, const z3::expr& e) {
  if (e.is_true()) return;
  s.pc.push_back(e);
}
static bool modelTrue(State& s, const z3::expr& e) {
  if (!s.modelOk || !s.model) return false;
  z3::expr r = s.model->eval(e, true);
  if (r.is_true()) return true;
  if (r.is_false()) return false;
  return r.simplify().is_true();
}

// Decide a condition; forks the state when both sides are feasible.  The
// sibling re-executes the current instruction, so nothing may have been
// mutated by the current instruction before a call of decide().
static bool decide(State& s, const Val& c) {
  if (c.conc()) return c.c & 1;
  z3::expr T = toBool(c), F = exF(c);
  auto it = s.dec.find(T.id());
  if (it != s.dec.end()) return it->second;
  bool t = modelTrue(s, T), f = modelTrue(s, F);
  if (t || f) S.modelHits++;
  std::shared_ptr<z3::model> mt, mf;
  bool ut = false, uf = false;
  if (t) mt = s.model; else { R3 r = query(s, T, mt); t = r != UNSAT; ut = r == UNK; }
  if (f) mf = s.model; else if (!t) { f = true; mf = nullptr; uf = !s.modelOk; if (s.modelOk) { /* pc sat and T impossible */ mf = s.model; } }
  else { R3 r = query(s, F, mf); f = r != UNSAT; uf = r == UNK; }
  if (t && f) {
    S.forks++;
    keep.push_back(T);
    State* n = new State(s);
    n->pc.push_back(F);
    n->dec[T.id()] = 0;
    n->model = mf; n->modelOk = !uf && mf;
    work.push_back(n);
    s.pc.push_back(T); s.dec[T.id()] = 1;
    s.model = mt; s.modelOk = !ut && mt;
    return true;
  }
  keep.push_back(T);
  if (t) {
    if (c.k == Val::Bool && c.p->hasF) s.pc.push_back(T);
    s.dec[T.id()] = 1;
    s.model = mt; s.modelOk = !ut && mt; return true;
  }
  s.dec[T.id()] = 0;
  if (c.k == Val::Bool && c.p->hasF) s.pc.push_back(F);
  return false;
}

static void assume(State& s, const z3::expr& T) {
  if (T.is_true()) return;
  if (T.is_false()) throw PathEnd{"assume"};
  if (!modelTrue(s, T)) {
    std::shared_ptr<z3::model> m;
    R3 r = query(s, T, m);
    if (r == UNSAT) throw PathEnd{"assume"};
    s.model = m; s.modelOk = r == SAT;
  }
  s.pc.push_back(T);
}

// Make a BV value concrete by forking over its feasible values.
static uint64_t concretize(State& s, const Val& v) {
  if (v.conc()) return v.c;
  if (v.k == Val::Bool) return decide(s, v);
  if (v.k == Val::Real) throw Unsupported{"concretize real"};
  if (v.p->hasB) return decide(s, mkBool(v.p->b));
  z3::expr e = toBV(v);
  auto it = s.dec.find(e.id());
  if (it != s.dec.end()) return it->second;
  if (!s.modelOk || !s.model) {
    std::shared_ptr<z3::model> m;
    R3 r = query(s, Z->bool_val(true), m);
    if (r == UNSAT) throw PathEnd{"infeasible"};
    if (r == UNK) throw Unsupported{"no model for concretization"};
    s.model = m; s.modelOk = true;
  }
  uint64_t c;
  z3::expr mv = s.model->eval(e, true).simplify();
  if (!mv.is_numeral_u64(c)) throw Unsupported{"non numeral model value"};
  z3::expr eq = e == Z->bv_val((uint64_t)c, v.w);
  std::shared_ptr<z3::model> m;
  R3 r = query(s, !eq, m);
  if (r != UNSAT) {
    S.forks++;
    State* n = new State(s);
    n->pc.push_back(!eq);
    n->model = m; n->modelOk = r == SAT;
    work.push_back(n);
  }
  s.pc.push_back(eq);
  s.dec[e.id()] = c;
  keep.push_back(e);
  return c;
}

#include "real.h"

// ------------------------------------------------------------------ memory access
static uint64_t allocObj(State& s, uint64_t size, char kind, bool zero, const string& name, uint64_t align = 16) {
  uint64_t a = (s.nextAddr + align - 1) / align * align;
  s.nextAddr = a + size + 64;
  s.mem[a] = std::make_shared<Obj>(a, size, kind, zero, name);
  return a;
}
static std::shared_ptr<Obj>* findObj(State& s, uint64_t addr) {
  auto it = s.mem.upper_bound(addr);
  if (it == s.mem.begin()) return nullptr;
  --it;
  if (addr >= it->second->base + std::max<uint64_t>(it->second->size, 1)) return nullptr;
  return &it->second;
}
static Obj& checkAccess(State& s, uint64_t addr, uint64_t n, bool write, uint64_t& off) {
  auto* p = findObj(s, addr);
  if (!p) throw Violation{"memory", string(write ? "invalid write" : "invalid read") + (addr < 4096 ? " (null pointer)" : "")};
  off = addr - (*p)->base;
  if (off + n > (*p)->size) throw Violation{"memory", string("out-of-bounds ") + (write ? "write" : "read") + " of object " + (*p)->name};
  if (write) {
    if ((*p)->ro) throw Violation{"memory", "write to constant " + (*p)->name};
    if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
  }
  return **p;
}
static Obj& writable(State& s, uint64_t base) {
  auto& p = s.mem[base];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return *p;
}
static uint64_t sizeOfTy(Type* t) { return DL->getTypeStoreSize(t); }
static unsigned widthOf(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isHalfTy()) return 16;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static Val mkAgg(vector<Val> v) {
  Val r = Val::node(Val::Agg, 0, Z->bool_val(true));
  r.p->agg = new vector<Val>(std::move(v));
  return r;
}
static unsigned undefCnt = 0;
static Val freshVal(Type* t, const char* base) {
  if (auto* st = dyn_cast<StructType>(t)) { vector<Val> v; for (auto* e : st->elements()) v.push_back(freshVal(e, base)); return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { vector<Val> v; for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(freshVal(at->getElementType(), base)); return mkAgg(v); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { vector<Val> v; for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(freshVal(vt->getElementType(), base)); return mkAgg(v); }
  unsigned w = widthOf(t);
  if (!w) throw Unsupported{"fresh value type"};
  string n = string(base) + "!" + std::to_string(undefCnt++);
  if (w == 1) return mkBool(Z->bool_const(n.c_str()));
  return mkBV(Z->bv_const(n.c_str(), w));
}
static Val loadConc(State& s, uint64_t addr, Type* ty);
static Val loadBytes(State& s, uint64_t addr, unsigned n, unsigned w) {
  uint64_t off;
  Obj& o = checkAccess(s, addr, n, false, off);
  bool un = false;
  for (unsigned i = 0; i < n; i++) if (o.st[off + i] == 0) un = true;
  if (un) return writable(s, o.base).load(off, n, w);
  return o.load(off, n, w);
}
static Val loadConc(State& s, uint64_t addr, Type* ty) {
  if (auto* st = dyn_cast<StructType>(ty)) {
    vector<Val> v; const StructLayout* L = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(loadConc(s, addr + L->getElementOffset(i), st->getElementType(i)));
    return mkAgg(v);
  }
  if (ty->isArrayTy() || ty->isVectorTy()) {
    Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
    uint64_t n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
    vector<Val> v; uint64_t es = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < n; i++) v.push_back(loadConc(s, addr + i * es, et));
    return mkAgg(v);
  }
  unsigned w = widthOf(ty), n = sizeOfTy(ty);
  if (!w) throw Unsupported{"load type"};
  return loadBytes(s, addr, n, w);
}
static void storeConc(State& s, uint64_t addr, Type* ty, const Val& v) {
  if (v.k == Val::Agg) {
    auto& a = *v.p->agg;
    for (unsigned i = 0; i < a.size(); i++) {
      uint64_t off; Type* et;
      if (auto* st = dyn_cast<StructType>(ty)) { off = DL->getStructLayout(st)->getElementOffset(i); et = st->getElementType(i); }
      else { et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType(); off = i * DL->getTypeAllocSize(et); }
      storeConc(s, addr + off, et, a[i]);
    }
    return;
  }
  uint64_t off, n = sizeOfTy(ty);
  Obj& o = checkAccess(s, addr, n, true, off);
  o.store(off, v);
}
// Load through a symbolic address: ite chain inside one object when possible.
static Val loadSym(State& s, const Val& a, Type* ty) {
  z3::expr ae = toBV(a);
  auto it = s.dec.find(ae.id());
  if (it != s.dec.end()) return loadConc(s, it->second, ty);
  unsigned w = widthOf(ty);
  if (O.iteLoads && w) {
    if (!s.modelOk || !s.model) {
      std::shared_ptr<z3::model> m; R3 r = query(s, Z->bool_val(true), m);
      if (r == UNSAT) throw PathEnd{"infeasible"};
      if (r == UNK) throw Unsupported{"no model"};
      s.model = m; s.modelOk = true;
    }
    uint64_t c;
    if (!s.model->eval(ae, true).simplify().is_numeral_u64(c)) throw Unsupported{"address model"};
    uint64_t n = sizeOfTy(ty);
    auto* p = findObj(s, c);
    if (p && c + n <= (*p)->base + (*p)->size && (*p)->size / n <= 4096) {
      uint64_t base = (*p)->base, size = (*p)->size;
      // the address must stay in the object, else fork on it
      z3::expr inb = z3::uge(ae, Z->bv_val(base, 64)) && z3::ule(ae, Z->bv_val(base + size - n, 64));
      if (decide(s, mkBool(inb))) {
        uint64_t ph = (c - base) % n;
        z3::expr al = z3::urem(ae - Z->bv_val(base, 64), Z->bv_val(n, 64)) == Z->bv_val(ph, 64);
        bool pow2 = (n & (n - 1)) == 0;
        if (pow2) {
          unsigned lg = 0; while ((1ULL << lg) < n) lg++;
          al = lg ? ((ae - Z->bv_val(base, 64)).extract(lg - 1, 0) == Z->bv_val(ph, lg)) : Z->bool_val(true);
        }
        if (decide(s, mkBool(al))) {
          bool real = false, bad = false;
          vector<std::pair<uint64_t, Val>> vals;
          for (uint64_t off = ph; off + n <= size; off += n) {
            Val v = loadConc(s, base + off, ty);
            if (v.k == Val::Real) real = true;
            if (v.k == Val::Bool && v.p->hasF) bad = true;
            vals.push_back({off, v});
          }
          if (!real && !bad && !vals.empty()) {
            // group equal concrete values
            z3::expr r = w == 1 ? toBool(vals.back().second) : toBV(vals.back().second);
            for (int i = (int)vals.size() - 2; i >= 0; i--) {
              z3::expr vi = w == 1 ? toBool(vals[i].second) : toBV(vals[i].second);
              if (z3::eq(vi, r)) continue;
              r = z3::ite(ae == Z->bv_val(base + vals[i].first, 64), vi, r);
            }
            return w == 1 ? mkBool(r) : mkBV(r);
          }
        }
      }
    }
  }
  return loadConc(s, concretize(s, a), ty);
}
static void memCopy(State& s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  uint64_t so, dofs;
  checkAccess(s, src, n, false, so);
  Obj& d = checkAccess(s, dst, n, true, dofs);
  auto sp = *findObj(s, src);
  Obj tmp(0, n, 'h', false);
  // snapshot source range
  vector<std::pair<uint32_t, Val>> cs;
  for (uint64_t i = 0; i < n; i++) { tmp.st[i] = sp->st[so + i]; tmp.b[i] = sp->b[so + i]; }
  for (uint64_t i = 0; i < n;) {
    if (tmp.st[i] != 2) { i++; continue; }
    auto it = sp->cells.upper_bound(so + i); --it;
    uint64_t cs0 = it->first, len = it->second.w / 8;
    if (cs0 == so + i && i + len <= n) { cs.push_back({(uint32_t)i, it->second}); i += len; }
    else {
      if (it->second.k == Val::Real) throw Unsupported{"partial copy of real-mode value"};
      cs.push_back({(uint32_t)i, sp->byteOf(so + i)}); i++;
    }
  }
  d.split(dofs, n);
  for (uint64_t i = 0; i < n; i++) { d.b[dofs + i] = tmp.b[i]; d.st[dofs + i] = tmp.st[i]; }
  for (auto& c : cs) d.store(dofs + c.first, c.second);
}

// ------------------------------------------------------------------ constants
static uint64_t addrOfGlobal(const GlobalValue* g);
static Val constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return Val::mk(ci->getZExtValue(), ci->getBitWidth());
    SmallString<40> str; ci->getValue().toString(str, 10, false);
    return mkBV(Z->bv_val(std::string(str.c_str()).c_str(), ci->getBitWidth()));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (widthOf(t) > 64) throw Unsupported{"fp80 constant"};
    return Val::mk(cf->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(t));
  }
  if (isa<ConstantPointerNull>(c)) return Val::mk(0, 64);
  if (isa<UndefValue>(c)) return freshVal(t, "undef");
  if (auto* g = dyn_cast<GlobalValue>(c)) return Val::mk(addrOfGlobal(g), 64);
  if (isa<ConstantAggregateZero>(c)) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      vector<Val> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
      return mkAgg(v);
    }
    return Val::mk(0, widthOf(t));
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c) || isa<ConstantVector>(c)) {
    vector<Val> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i)));
    return mkAgg(v);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = widthOf(t);
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
        return Val::mk(constVal(ce->getOperand(0)).c + off.getSExtValue(), 64);
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      case Instruction::Trunc: case Instruction::ZExt:
        return Val::mk(constVal(ce->getOperand(0)).c, w);
      case Instruction::Add: return Val::mk(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, w);
      case Instruction::Sub: return Val::mk(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, w);
      default: throw Unsupported{string("constexpr ") + ce->getOpcodeName()};
    }
  }
  throw Unsupported{"constant kind"};
}
static void constToMem(Obj& o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) { uint64_t n = DL->getTypeAllocSize(t); for (uint64_t i = 0; i < n; i++) { o.st[off + i] = 1; o.b[off + i] = 0; } return; }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* L = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) constToMem(o, off + L->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < n; i++) constToMem(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  o.store(off, constVal(c));
}
static uint64_t addrOfGlobal(const GlobalValue* g) {
  if (auto* f = dyn_cast<Function>(g)) {
    auto it = faddrOf.find(f);
    if (it != faddrOf.end()) return it->second;
    return 0;
  }
  if (auto* a = dyn_cast<GlobalAlias>(g)) return constVal(a->getAliasee()).c;
  if (auto* v = dyn_cast<GlobalVariable>(g)) return gaddr[v];
  throw Unsupported{"global kind"};
}

#include "exec.h"
#include "main.h"
