// bounded model checking driver
#include "engine.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <fstream>
#include <sys/resource.h>
using namespace vx;
static E c64(u64 x) { return mkConst(x, 64); }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

bool Engine::runSeq(Mem& mem, Function* f, E guard) {
  wl.clear(); ends.clear(); stepKills.clear();
  State s; s.guard = guard; s.mem = mem; s.tid = mainTid;
  pushFrame(s, f, {}, 1);
  push(std::move(s));
  runWL();
  if (stop) return false;
  std::vector<State> alts; for (auto& e : ends) alts.push_back(std::move(e.second));
  if (alts.empty()) return false;
  Mem out; mergeStepResults(mem, alts, out); mem = out;
  return true;
}
// one line per event on the path selected by the model
std::string Engine::trace(Evaluator& ev, int upto) {
  std::string t; int last = -1000;
  for (auto& e : events) {
    if (e.step > upto) break;
    if (!ev(e.guard)) continue;
    if (e.step != last) last = e.step;
    t += std::to_string(e.step) + " " + e.kind;
    for (E v : e.vals) { u128 x = ev(v); t += " " + std::to_string((unsigned long long)x); }
    t += "\n";
  }
  return t;
}
void maybeStats();
int Engine::main() {
  initModels();
  initGlobals();
  nthreads = 0;
  std::vector<Function*> th;
  for (;;) { Function* f = M.getFunction("thread_" + std::to_string(nthreads)); if (!f || f->isDeclaration()) break; th.push_back(f); nthreads++; }
  mainTid = 30;
  evBase = nthreads;
  Mem mem = initMem;
  size_t vdone = 0; uint64_t nprune = 0;
  std::string violTrace, violInfo; bool complete = false, haveViol = false; int maxReach = 0;
  std::string inconclusive; std::set<std::string> unsupReached;
  solver.timeout(600000);
  auto checkNew = [&]() -> bool { // returns true when a violation was found
    std::vector<E> v; size_t b = vdone;
    for (; vdone < viols.size(); vdone++) if (!opt.ignore.count(viols[vdone].kind)) v.push_back(viols[vdone].cond);
  again:
    if (v.empty()) return false;
    if (opt.verbose) fprintf(stderr, "[step %d] checking %zu conditions, exprs=%zu t=%.1f\n", step, v.size(), numExprs(), elapsed());
    double left = opt.budget - elapsed(); if (left < 1) left = 1;
    solver.timeout((unsigned)(left * 1000));
    Evaluator ev;
    stats["conditions"] += v.size();
    Res r = solver.check(mkOrV(v), &ev);
    solver.timeout(600000);
    if (r == Res::UNKNOWN) { inconclusive = "solver gave no answer"; outcome = "timeout"; stop = true; return false; }
    if (r == Res::UNSAT) { for (E x : v) solver.add(mkNot(x)); return false; }
    // prefer the earliest true condition
    for (size_t i = b; i < viols.size(); i++) if (!opt.ignore.count(viols[i].kind) && ev(viols[i].cond)) {
      auto& x = viols[i];
      if (x.kind == "unsupported") { // the path ends here; the rest of the state space is still examined
        unsupReached.insert(x.msg + " at " + x.loc);
        for (size_t k = 0; k < v.size(); k++) if (v[k] == x.cond) { v.erase(v.begin() + k); break; }
        solver.add(mkNot(x.cond));
        goto again;
      }
      haveViol = true;
      outcome = "violation";
      violInfo = "\"kind\":\"" + esc(x.kind) + "\",\"msg\":\"" + esc(x.msg) + "\",\"loc\":\"" + esc(x.loc) + "\",\"step\":" + std::to_string(x.step);
      violTrace = trace(ev, x.step);
      // show other simultaneously true conditions
      for (size_t j = i + 1; j < viols.size(); j++) if (opt.verbose && ev(viols[j].cond)) fprintf(stderr, "  also: %s %s @ %s\n", viols[j].kind.c_str(), viols[j].msg.c_str(), viols[j].loc.c_str());
      return true;
    }
    fprintf(stderr, "model does not satisfy any condition (translation mismatch)\n");
    inconclusive = "model/evaluator mismatch"; outcome = "inconclusive"; stop = true;
    return true;
  };
  std::map<std::string, std::pair<bool, std::string>> cov; // name -> reached, trace
  size_t cdone = 0;
  auto checkCovers = [&]() {
    for (; cdone < covers.size(); cdone++) {
      auto& c = covers[cdone]; auto& r = cov[c.msg];
      if (r.first) continue;
      Evaluator ev;
      double left = opt.budget - elapsed(); if (left < 1) left = 1;
      solver.timeout((unsigned)(std::min(left, 60.0) * 1000));
      if (solver.check(c.cond, &ev) == Res::SAT) { r.first = true; r.second = trace(ev, c.step); }
      solver.timeout(600000);
    }
  };
  auto commitKills = [&]() { for (E k : stepKills) solver.add(mkNot(k)); stepKills.clear(); };
  auto finishPhase = [&]() -> bool { if (stop) return true; if (checkNew()) return true; checkCovers(); commitKills(); return stop; };

  do {
    // global constructors
    mode = SEQ; step = -2; nowE = nullptr;
    if (auto* gc = M.getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& op : ca->operands()) { Function* f = dyn_cast<Function>(cast<Constant>(op)->getAggregateElement(1u)->stripPointerCasts()); if (f && !f->isDeclaration()) { if (!runSeq(mem, f, T())) { break; } if (finishPhase()) break; } }
    if (stop || haveViol) break;
    if (Function* f = M.getFunction("setup")) { if (!runSeq(mem, f, T()) && !stop) { if (!finishPhase()) { outcome = "inconclusive"; inconclusive = "setup does not complete"; } break; } }
    if (finishPhase()) break;
    // run every thread up to its first synchronisation point
    mode = PRERUN; step = -1; parks.resize(nthreads);
    for (int t = 0; t < nthreads && !stop; t++) {
      wl.clear(); ends.clear();
      if (opt.hb) { mem.hbw().thr[t][t] = T(); }
      State s; s.guard = T(); s.mem = mem; s.tid = t;
      pushFrame(s, th[t], {}, 100 + t);
      push(std::move(s)); runWL();
      if (stop) break;
      std::vector<State> alts;
      for (auto& e : ends) { parks[t][e.first] = Park{e.first, e.second.guard, e.second.frames}; alts.push_back(e.second); }
      Mem out; mergeStepResults(mem, alts, out); mem = out;
      // kills in the pre-run leave the remaining park guards non-exhaustive; they are committed below
      if (finishPhase()) break;
    }
    if (stop || haveViol) break;
    mode = CONC;
    E now = c64((1ull << 40));
    E vprev = nullptr;
    E allDone = F();
    auto doneG = [&](int t) -> E { auto it = parks[t].find(Key()); return it == parks[t].end() ? F() : it->second.guard; };
    std::vector<E> started(nthreads, F());
    int total = opt.K + opt.tail * nthreads;
    for (step = 0; step < total && !stop; step++) {
      if (elapsed() > opt.budget) { inconclusive = "time budget used up"; outcome = "timeout"; stop = true; break; }
      inTail = step >= opt.K;
      std::vector<E> dn; for (int t = 0; t < nthreads; t++) dn.push_back(doneG(t));
      allDone = mkAndV(dn);
      if (isT(allDone)) { complete = true; break; }
      // clock
      if (!inTail) {
        char b[32]; snprintf(b, 32, "now%d", step);
        E v = mkVar(b, opt.clockBits);
        if (vprev) solver.add(mkUle(vprev, v));
        vprev = v;
        nowE = mkAdd(mkZext(v, 64), c64(1ull << 40));
      } else nowE = mkAdd(clockMax(), c64(1));
      // enabledness
      std::vector<std::vector<std::pair<Park*, std::pair<E, E>>>> en(nthreads);
      std::vector<E> anyPot, notDone;
      for (int t = 0; t < nthreads; t++) {
        for (auto it = parks[t].begin(); it != parks[t].end();) {
          Park& p = it->second;
          if (isF(p.guard)) { it = parks[t].erase(it); continue; }
          if (!p.key.empty()) {
            if (opt.prune && !isT(p.guard) && step >= 1) { nprune++; solver.timeout(20000); if (!maybe(p.guard)) { solver.add(mkNot(p.guard)); it = parks[t].erase(it); continue; } }
            State s; s.guard = p.guard; s.mem = mem; s.frames = p.frames; s.tid = t;
            Instruction* in = s.frames.back().fi->blocks[s.frames.back().b].insts[s.frames.back().i];
            E e = enabledAt(s, in, false), pe = inTail ? e : enabledAt(s, in, true);
            en[t].push_back({&p, {e, pe}});
            anyPot.push_back(mkAnd(p.guard, pe));
          }
          ++it;
        }
      }
      solver.timeout(600000);
      if (opt.verbose) { fprintf(stderr, "[step %d] parks:", step); for (int t = 0; t < nthreads; t++) fprintf(stderr, " %zu", parks[t].size()); fprintf(stderr, " exprs=%zu viol=%zu t=%.1f solver=%.1f divs=%zu vars=%d clauses=%d\n", numExprs(), viols.size(), elapsed(), solver.secs, solver.defs.size(), solver.S.nVars(), solver.S.nClauses()); }
      std::vector<E> cg(nthreads, F());
      std::vector<State> alts;
      if (!inTail) {
        E stuck = mkAnd(mkNot(allDone), mkNot(mkOrV(anyPot)));
        if (!isF(stuck)) { 
          std::string where;
          viols.push_back({step, stuck, "deadlock", "no thread can make progress", ""});
        }
        unsigned nb = 1; while ((1u << nb) < (unsigned)nthreads + 1) nb++;
        auto choose = [&](unsigned v) { std::vector<E> l; for (unsigned i = 0; i < nb; i++) { char b[32]; snprintf(b, 32, "s%d_%u", step, i); E x = mkVar(b, 1); l.push_back((v >> i) & 1 ? x : mkNot(x)); } return mkAndV(l); };
        std::vector<E> valid;
        for (int t = 0; t < nthreads; t++) {
          cg[t] = choose(t);
          std::vector<E> can; for (auto& p : en[t]) can.push_back(mkAnd(p.first->guard, p.second.first));
          E ct = mkAnd(cg[t], mkOrV(can));
          valid.push_back(ct);
          events.push_back({step, ct, "run", {mkConst(t, 32), nowE}});
        }
        E idle = mkAnd(choose(nthreads), allDone);
        valid.push_back(idle);
        // stuck states end here, so they must be examined before the step is forced to exist
        if (checkNew()) break;
        if (stop) break;
        solver.add(mkOrV(valid));
        if (opt.sym) { for (int t = 0; t + 1 < nthreads; t++) solver.add(mkImp(cg[t + 1], started[t])); for (int t = 0; t < nthreads; t++) started[t] = mkOr(started[t], cg[t]); }
        if (!isF(idle)) { State s; s.guard = idle; s.mem = mem; alts.push_back(s); }
      }
      for (int t = 0; t < nthreads; t++) {
        if (inTail && t != (step - opt.K) % nthreads) continue;
        wl.clear(); ends.clear();
        std::vector<E> ran;
        for (auto& p : en[t]) {
          E g = inTail ? mkAnd(p.first->guard, p.second.first) : mkAndV({cg[t], p.first->guard, p.second.first});
          if (isF(g)) continue;
          State s; s.guard = g; s.mem = mem; s.frames = p.first->frames; s.tid = t; s.resumed = s.frames.back().phase == 0;
          if (opt.hb) { int e = evBase + step * SEG; s.mem.hbw().thr[t][e] = T(); }
          if (inTail) ran.push_back(g);
          push(std::move(s));
        }
        E c = inTail ? mkOrV(ran) : cg[t];
        if (inTail) { events.push_back({step, c, "run", {mkConst(t, 32), nowE}}); E nc = mkNot(c); if (!isF(nc)) { State s; s.guard = nc; s.mem = mem; alts.push_back(s); } }
        runWL();
        if (stop) break;
        std::map<Key, Park> np;
        E keep = mkNot(c);
        for (auto& p : parks[t]) {
          E g = mkAnd(p.second.guard, keep);
          if (p.first.empty()) { if (!inTail) g = p.second.guard; }  // a finished thread stays finished
          if (!isF(g)) { np[p.first] = p.second; np[p.first].guard = g; }
        }
        for (auto& e : ends) {
          State& s = e.second;
          auto it = np.find(e.first);
          if (it == np.end()) np[e.first] = Park{e.first, s.guard, s.frames};
          else {
            E ca = factorCond(s.guard, it->second.guard);
            for (size_t f = 0; f < s.frames.size(); f++) for (size_t k = 0; k < s.frames[f].regs.size(); k++) it->second.frames[f].regs[k] = mergeVal(ca, s.frames[f].regs[k], it->second.frames[f].regs[k]);
            for (size_t f = 0; f < s.frames.size(); f++) if (it->second.frames[f].allocas.size() < s.frames[f].allocas.size()) it->second.frames[f].allocas = s.frames[f].allocas;
            it->second.guard = mkOr(it->second.guard, s.guard);
          }
          alts.push_back(s);
        }
        parks[t] = std::move(np);
      }
      if (stop) break;
      Mem out; mergeStepResults(mem, alts, out); mem = out;
      maxReach = step + 1;
      if (finishPhase()) break;
      if (opt.cut) canonAll(mem);
    }
    if (stop || haveViol) break;
    std::vector<E> dn; for (int t = 0; t < nthreads; t++) dn.push_back(doneG(t));
    allDone = nthreads ? mkAndV(dn) : T();
    if (opt.tail && nthreads) {
      if (!isT(allDone)) viols.push_back({step, mkNot(allDone), "progress", "threads do not finish under a fair continuation", ""});
      if (checkNew()) break;
      if (stop) break;
      complete = true;
      if (opt.ignore.count("progress") && !isT(allDone)) {
        double left = opt.budget - elapsed(); if (left < 1) left = 1;
        solver.timeout((unsigned)(std::min(left, 60.0) * 1000));
        complete = solver.check(mkNot(allDone)) == Res::UNSAT;
      }
    } else if (nthreads && !isT(allDone)) {
      double left = opt.budget - elapsed(); if (left < 1) left = 1;
      solver.timeout((unsigned)(std::min(left, 120.0) * 1000));
      complete = solver.check(mkNot(allDone)) == Res::UNSAT;
    } else complete = true;
    if (Function* f = M.getFunction("final"); f && !f->isDeclaration() && !isF(allDone)) {
      mode = SEQ; 
      if (nowE) { nowE = mkAdd(clockMax(), c64(2)); }
      runSeq(mem, f, allDone);
      finishPhase();
    }
  } while (false);
  if (!haveViol && !stop) checkCovers();
  if (opt.verbose) ::maybeStats();
  // ---- report
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::string j = "{\"outcome\":\"" + outcome + "\",\"inconclusive\":\"" + esc(inconclusive) + "\",";
  if (haveViol) j += "\"violation\":{" + violInfo + ",\"trace\":\"" + esc(violTrace) + "\"},";
  j += "\"threads\":" + std::to_string(nthreads) + ",\"steps\":" + std::to_string(maxReach) + ",\"complete\":" + (complete ? "true" : "false");
  j += ",\"K\":" + std::to_string(opt.K) + ",\"tail\":" + std::to_string(opt.tail);
  char b[400];
  snprintf(b, 400, ",\"queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"exprs\":%zu,\"insts\":%llu,\"states\":%llu,\"merges\":%llu,\"forks\":%llu,\"conditions\":%zu,\"asserts\":%llu,\"maxrss_mb\":%ld,\"prunes\":%llu,\"unlock_sync\":%d",
    (unsigned long long)solver.queries, solver.secs, elapsed(), numExprs(), (unsigned long long)nInsts, (unsigned long long)nStates, (unsigned long long)nMerges, (unsigned long long)nForks, viols.size(), (unsigned long long)stats["asserts"], ru.ru_maxrss / 1024, (unsigned long long)nprune, (int)unlockSync);
  j += b;
  j += ",\"covers\":{"; bool first = true;
  for (auto& c : cov) { if (!first) j += ","; first = false; j += "\"" + esc(c.first) + "\":{\"reached\":" + (c.second.first ? "true" : "false") + ",\"trace\":\"" + esc(c.second.second) + "\"}"; }
  j += "},\"unsupported\":["; first = true;
  for (auto& u : unsupReached) { if (!first) j += ","; first = false; j += "\"" + esc(u) + "\""; }
  j += "],\"functions\":["; first = true;
  for (auto& u : repoFuncs) { if (!first) j += ","; first = false; j += "\"" + esc(u.first) + "\""; }
  j += "]}\n";
  if (opt.out.empty()) fputs(j.c_str(), stdout); else { std::ofstream o(opt.out); o << j; }
  return 0;
}
int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err; Options o; std::string in;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "-K") o.K = stoi(val()); else if (a == "--tail") o.tail = stoi(val()); else if (a == "--spurious") o.spurious = stoi(val());
    else if (a == "--clock") o.clockBits = stoi(val()); else if (a == "--eintr") o.eintr = stoi(val()); else if (a == "--weakcas") o.weakcas = stoi(val());
    else if (a == "--cut") o.cut = stoi(val()); else if (a == "--cutconf") o.cutConf = stoi(val()); else if (a == "--hb") o.hb = true; else if (a == "--noprune") o.prune = false; else if (a == "-v") o.verbose = true; else if (a == "--budget") o.budget = stod(val());
    else if (a == "--sym") o.sym = true; else if (a == "--ignore") { std::string l = val(), k; for (char c : l + ",") if (c == ',') { if (!k.empty()) o.ignore.insert(k); k.clear(); } else k += c; }
    else if (a == "--tspec") o.tspec = true; else if (a == "-o") o.out = val(); else if (a == "--logic") o.logic = val(); else if (a == "--unwind") o.softUnwind = stoi(val());
    else in = a;
  }
  auto m = parseIRFile(in, err, ctx);
  if (!m) { err.print("vx", errs()); return 2; }
  auto* e = new Engine(*m, o);
  int r = e->main();
  fflush(stdout);
  _exit(r);
}
