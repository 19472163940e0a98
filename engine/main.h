#pragma once
static string jesc(const string& s) {
  string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r;
}
static void writeJson(double wall) {
  std::ofstream f(O.out);
  auto kv = [&](const vector<std::pair<string, string>>& v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + string("[\"") + jesc(v[i].first) + "\",\"" + jesc(v[i].second) + "\"]"; return r + "]"; };
  f << "{\"entry\":\"" << O.entry << "\",\"params\":{";
  bool fst = true; for (auto& p : O.params) { f << (fst ? "" : ",") << "\"" << p.first << "\":" << p.second; fst = false; }
  f << "},\"wall\":" << wall << ",\"paths\":" << S.paths << ",\"infeasible\":" << S.infeasible << ",\"forks\":" << S.forks << ",\"instr\":" << S.instr
    << ",\"queries\":" << S.queries << ",\"sat\":" << S.qsat << ",\"unsat\":" << S.qunsat << ",\"unknown\":" << S.qunk << ",\"solver_s\":" << S.solver << ",\"bad_models\":" << S.badModel << ",\"max_query_s\":" << S.maxq
    << ",\"checks\":" << S.checks << ",\"checks_unsat\":" << S.checkUnsat << ",\"checks_concrete\":" << S.checkConc << ",\"checks_unknown\":" << S.checkUnk << ",\"model_hits\":" << S.modelHits;
  f << ",\"undecided\":["; for (size_t i = 0; i < undecided.size() && i < 20; i++) f << (i ? "," : "") << "\"" << jesc(undecided[i]) << "\""; f << "]";
  f << ",\"reached\":["; fst = true; for (auto& r : reachedAll) { f << (fst ? "" : ",") << "\"" << jesc(r) << "\""; fst = false; } f << "]";
  f << ",\"violations\":[";
  for (size_t i = 0; i < viols.size(); i++) f << (i ? "," : "") << "{\"kind\":\"" << jesc(viols[i].kind) << "\",\"msg\":\"" << jesc(viols[i].msg) << "\",\"loc\":\"" << jesc(viols[i].loc) << "\",\"abstracted\":" << (viols[i].abstracted ? "true" : "false") << ",\"inputs\":" << kv(viols[i].in) << "}";
  f << "],\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << "{\"inputs\":" << kv(samples[i].in) << ",\"obs\":" << kv(samples[i].obs) << ",\"abstracted\":" << (samples[i].abstracted ? "true" : "false") << "}";
  f << "],\"functions\":["; fst = true;
  vector<std::pair<uint64_t, string>> fl;
  for (auto& kvp : fns) if (kvp.second->execs && kvp.second->kind == FK::Body) fl.push_back({kvp.second->execs, demangle(kvp.first->getName().str())});
  std::sort(fl.rbegin(), fl.rend());
  for (auto& p : fl) if (p.second.find("rofl::") != string::npos || p.second.find("std::") == string::npos) { f << (fst ? "" : ",") << "\"" << jesc(p.second.size() > 200 ? p.second.substr(0, 200) : p.second) << "\""; fst = false; }
  f << "],\"stubs\":["; fst = true; for (auto& r : stubsUsed) { f << (fst ? "" : ",") << "\"" << jesc(r.size() > 160 ? r.substr(0, 160) : r) << "\""; fst = false; } f << "]}\n";
}

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--out") O.out = nx(); else if (a == "--logic") O.logic = nx();
    else if (a == "--timeout") O.qtimeout = stoul(nx()); else if (a == "--budget") O.budget = stod(nx());
    else if (a == "--max-instr") O.maxInstr = stoull(nx()); else if (a == "--max-viol") O.maxViol = stoul(nx());
    else if (a == "--samples") O.samples = stoul(nx()); else if (a == "--seed") O.seed = stoul(nx());
    else if (a == "--no-ite-loads") O.iteLoads = false; else if (a == "-v") O.verbose++; else if (a == "--no-slice") O.slice = false;
    else if (a == "--taylor") O.taylor = true;
    else if (a == "--tm") O.tm = stoul(nx());
    else if (a == "--cosfold") O.cosfold = true;
    else if (a == "--io") O.io = true;
    else if (a == "--max-enum") O.maxEnum = stoul(nx());
    else if (a == "-p") { string p = nx(); size_t e = p.find('='); O.params[p.substr(0, e)] = stoll(p.substr(e + 1)); }
    else O.bc = a;
  }
  tStart = now();
  z3::context ctx; Z = &ctx;
  z3::set_param("smt.random_seed", (int)O.seed);
  ctx.set_rounding_mode(z3::RNE);
  LLVMContext C; SMDiagnostic err;
  M = parseIRFile(O.bc, err, C);
  if (!M) { err.print("rsym", errs()); return 3; }
  DL = &M->getDataLayout();
  setupHandlers();
  resetInc();
  State* s0 = new State;
  s0->model = std::make_shared<z3::model>(ctx); s0->modelOk = true;
  uint64_t ga = 0x10000000, fa = 0x100000;
  for (auto& F : *M) { faddrOf[&F] = fa; faddr[fa] = getFn(&F); fa += 16; }
  for (auto& G : M->globals()) {
    uint64_t sz = G.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 4096;
    ga = (ga + 63) / 64 * 64; gaddr[&G] = ga;
    string n = G.getName().str();
    if (startsWith(n, "_ZTI")) { tiOf[ga] = &G; tiName[ga] = n; }
    ga += sz + 64;
  }
  try {
    for (auto& G : M->globals()) {
      uint64_t sz = G.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 4096;
      auto o = std::make_shared<Obj>(gaddr[&G], sz, 'g', !G.hasInitializer(), G.getName().str());
      if (G.hasInitializer()) constToMem(*o, 0, G.getInitializer());
      o->ro = G.isConstant();
      s0->mem[gaddr[&G]] = o;
    }
  } catch (Unsupported& u) { std::cerr << "global init: " << u.msg << "\n"; return 3; }
  Function* E = M->getFunction(O.entry);
  if (!E || E->isDeclaration()) { std::cerr << "no entry " << O.entry << "\n"; return 3; }
  // global constructors
  vector<std::pair<int, Function*>> ctors;
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) {
    try { pushFrame(*s0, getFn(c.second), {}); while (true) step(*s0); }
    catch (PathEnd& p) { if (p.why != "done") { std::cerr << "ctor: " << p.why << "\n"; return 3; } }
    catch (Unsupported& u) { std::cerr << "ctor unsupported: " << u.msg << " @ " << locOf(*s0) << "\n"; return 3; }
    catch (Violation& v) { std::cerr << "ctor violation: " << v.msg << " @ " << locOf(*s0) << "\n"; return 3; }
    s0->st.clear();
  }
  s0->instr = 0;
  try { pushFrame(*s0, getFn(E), {}); } catch (Unsupported& u) { std::cerr << "decode: " << u.msg << "\n"; return 3; }
  work.push_back(s0);
  uint64_t sampleStride = 1, sinceSample = 0;
  while (!work.empty() && !stopAll) {
    State* s = work.back(); work.pop_back();
    try { while (true) step(*s); }
    catch (PathEnd& p) {
      if (p.why == "done") {
        S.paths++;
        for (auto& r : s->reached) reachedAll.insert(r);
        if (S.paths > O.maxPaths) { undecided.push_back("path limit"); stopAll = true; }
        if (sinceSample++ % sampleStride == 0 && O.samples) {
          if (!s->modelOk) {
            try { std::shared_ptr<z3::model> m; R3 r = query(*s, ctx.bool_val(true), m, 5000); if (r == SAT) { s->model = m; s->modelOk = true; } } catch (PathEnd&) {}
          }
          if (s->modelOk) {
            static double robustTime = 0;
            if (O.logic == "real" && samples.size() < 4 && robustTime < 6) { double t0 = now(); try { s->model = robustModel(*s, ctx.bool_val(true), s->model); } catch (...) {} robustTime += now() - t0; }
            Sample sm; sm.in = modelInputs(*s, s->model.get()); sm.abstracted = s->abstracted || O.logic == "real";
            for (auto& o : s->obs) sm.obs.push_back({o.tag, valStr(*s, o.v)});
            if (samples.size() >= O.samples) { samples[(S.paths / sampleStride) % samples.size()] = sm; sampleStride *= 2; }
            else samples.push_back(sm);
          }
        }
      } else S.infeasible++;
    } catch (Violation& v) {
      // confirm feasibility of the path
      std::shared_ptr<z3::model> m = s->model; bool ok = s->modelOk;
      bool rec = true;
      if (!ok) { try { R3 r = query(*s, ctx.bool_val(true), m); if (r == UNSAT) rec = false; else if (r == UNK) { rec = false; undecided.push_back("unknown feasibility: " + v.msg); } } catch (PathEnd&) { rec = false; } }
      if (rec) { try { recordViolation(*s, v.kind, v.msg, m); } catch (...) {} }
      S.paths++;
    } catch (Unsupported& u) {
      string l = locOf(*s);
      undecided.push_back("unsupported: " + u.msg + " @ " + l);
      if (O.verbose) std::cerr << "UNSUPPORTED " << u.msg << " @ " << l << "\n";
      if (undecided.size() > 10) stopAll = true;
    } catch (z3::exception& ex) {
      undecided.push_back(string("z3: ") + ex.msg() + " @ " + locOf(*s));
      if (O.verbose) std::cerr << undecided.back() << "\n";
      if (undecided.size() > 10) stopAll = true;
    }
    delete s;
    if (now() - tStart > O.budget && !work.empty() && !stopAll) { undecided.push_back("time budget exhausted"); stopAll = true; }
  }
  double wall = now() - tStart;
  if (!O.out.empty()) writeJson(wall);
  if (O.verbose) std::cerr << "paths " << S.paths << " infeasible " << S.infeasible << " queries " << S.queries << " solver " << S.solver << "s wall " << wall << "s instr " << S.instr << " checks " << S.checks << " viol " << viols.size() << " undecided " << undecided.size() << "\n";
  _exit(viols.empty() ? (undecided.empty() ? 0 : 2) : 1);
}
