// IR interpretation over merged symbolic states
#include "engine.hpp"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
using namespace vx;

FnInfo* Engine::info(Function* f) {
  auto& p = fns[f];
  if (p) return p.get();
  p.reset(new FnInfo);
  FnInfo* fi = p.get();
  fi->f = f; fi->id = (int)fns.size();
  for (auto& a : f->args()) fi->slot[&a] = fi->nslots++;
  for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->nslots++;
  DominatorTree dt(*f); LoopInfo li(dt);
  std::map<Loop*, int> loopId;
  // topological order per region with inner loops collapsed
  std::map<BasicBlock*, int> blockOrd; std::map<Loop*, int> loopOrd;
  std::function<void(Loop*, BasicBlock*)> region = [&](Loop* L, BasicBlock* entry) {
    auto rep = [&](BasicBlock* b) -> std::pair<Loop*, BasicBlock*> {
      Loop* x = li.getLoopFor(b), *in = nullptr;
      while (x != L) { if (!x) return {nullptr, nullptr}; in = x; x = x->getParentLoop(); }
      if (in) return {in, in->getHeader()};
      return {nullptr, b};
    };
    std::set<BasicBlock*> seen; std::vector<BasicBlock*> post;
    std::function<void(BasicBlock*)> dfs = [&](BasicBlock* node) {
      seen.insert(node);
      auto r = rep(node);
      auto visit = [&](BasicBlock* su) {
        if (L && su == L->getHeader()) return;
        if (L && !L->contains(su)) return;
        auto q = rep(su);
        if (!q.second || q.second == node) return;
        if (!seen.count(q.second)) dfs(q.second);
      };
      if (r.first) { SmallVector<BasicBlock*, 8> ex; for (auto* b : r.first->blocks()) for (auto* su : successors(b)) if (!r.first->contains(su)) visit(su); }
      else for (auto* su : successors(node)) visit(su);
      post.push_back(node);
    };
    auto er = rep(entry);
    dfs(er.second ? er.second : entry);
    int n = 0;
    for (auto it = post.rbegin(); it != post.rend(); ++it) {
      auto r = rep(*it);
      if (r.first) { loopOrd[r.first] = n++; } else blockOrd[*it] = n++;
    }
  };
  // note: a loop's own region must treat its header as a plain block
  std::function<void(Loop*)> rec = [&](Loop* L) {
    loopId[L] = (int)fi->loopHeader.size(); fi->loopHeader.push_back(-1);
    region(L, L->getHeader());
    for (auto* s : L->getSubLoops()) rec(s);
  };
  region(nullptr, &f->getEntryBlock());
  for (auto* L : li) rec(L);
  for (auto& bb : *f) {
    BlockInfo b; b.bb = &bb; b.ord = blockOrd.count(&bb) ? blockOrd[&bb] : 100000; b.firstNonPhi = 0;
    std::vector<LoopPos> lp;
    for (Loop* L = li.getLoopFor(&bb); L; L = L->getParentLoop()) lp.insert(lp.begin(), {loopId[L], loopOrd.count(L) ? loopOrd[L] : 100000});
    b.loops = lp;
    for (auto& i : bb) { if (isa<DbgInfoIntrinsic>(&i)) continue; if (isa<PHINode>(&i)) b.firstNonPhi++; b.insts.push_back(&i); }
    fi->bidx[&bb] = (int)fi->blocks.size();
    fi->blocks.push_back(b);
  }
  for (auto& l : loopId) fi->loopHeader[l.second] = fi->bidx[l.first->getHeader()];
  // liveness
  int nb = (int)fi->blocks.size(), ns = fi->nslots;
  for (auto& b : fi->blocks) { b.liveIn.resize(ns); b.liveOut.resize(ns); }
  bool ch = true;
  while (ch) {
    ch = false;
    for (int k = nb - 1; k >= 0; k--) {
      auto& b = fi->blocks[k];
      BitVector lv(ns);
      for (auto* su : successors(b.bb)) {
        auto& sb = fi->blocks[fi->bidx[su]];
        BitVector x = sb.liveIn;
        for (int p = 0; p < sb.firstNonPhi; p++) {
          auto* ph = cast<PHINode>(sb.insts[p]);
          x.reset(fi->slot[ph]);
        }
        lv |= x;
        for (int p = 0; p < sb.firstNonPhi; p++) {
          Value* v = cast<PHINode>(sb.insts[p])->getIncomingValueForBlock(b.bb);
          auto it = fi->slot.find(v); if (it != fi->slot.end()) lv.set(it->second);
        }
      }
      b.liveOut = lv;
      for (int q = (int)b.insts.size() - 1; q >= 0; q--) {
        auto* i = b.insts[q];
        if (auto it = fi->slot.find(i); it != fi->slot.end() && !isa<PHINode>(i)) lv.reset(it->second);
        if (isa<PHINode>(i)) { continue; }
        for (auto& op : i->operands()) { auto it = fi->slot.find(op); if (it != fi->slot.end()) lv.set(it->second); }
      }
      for (int q = 0; q < b.firstNonPhi; q++) lv.set(fi->slot[b.insts[q]]);
      if (lv != b.liveIn) { b.liveIn = lv; ch = true; }
    }
  }
  return fi;
}
const BitVector& Engine::liveAt(FnInfo* fi, int b, int i) {
  auto key = std::make_pair(b, i);
  auto it = fi->liveCache.find(key);
  if (it != fi->liveCache.end()) return it->second;
  auto& bi = fi->blocks[b];
  BitVector lv = bi.liveOut;
  for (int q = (int)bi.insts.size() - 1; q >= i; q--) {
    auto* in = bi.insts[q];
    if (auto s = fi->slot.find(in); s != fi->slot.end()) lv.reset(s->second);
    if (isa<PHINode>(in)) continue;
    for (auto& op : in->operands()) { auto s = fi->slot.find(op); if (s != fi->slot.end()) lv.set(s->second); }
  }
  // a call in progress (caller frames): its result is not live yet; operands stay live conservatively
  return fi->liveCache[key] = lv;
}
void Engine::pruneDead(State&, std::vector<Frame>& fr) {
  for (auto& f : fr) {
    const BitVector& lv = liveAt(f.fi, f.b, f.i);
    for (size_t k = 0; k < f.regs.size(); k++) if (!lv[k]) f.regs[k] = Val();
  }
}
Val Engine::get(State& s, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
  auto& f = s.frames.back();
  auto it = f.fi->slot.find(v);
  if (it == f.fi->slot.end()) { Val x; x.e = mkConst(0, 64); return x; }
  Val& r = f.regs[it->second];
  if (!r.e && !r.agg) {
    // undefined on this path
    if (unsigned w = width(v->getType())) { Val x; x.e = mkConst(0, w); return x; }
    return constVal(UndefValue::get(v->getType()));
  }
  return r;
}
void Engine::set(State& s, const Instruction* i, Val v) {
  if (i->getType()->isVoidTy()) return;
  auto& f = s.frames.back();
  f.regs[f.fi->slot[i]] = std::move(v);
}
Key Engine::keyOfFrames(const std::vector<Frame>& fr, bool iters) {
  Key k;
  for (auto& f : fr) {
    k.push_back(f.fi->id);
    auto& b = f.fi->blocks[f.b];
    for (size_t d = 0; d < b.loops.size(); d++) { k.push_back(b.loops[d].ord); k.push_back(iters && d < f.iters.size() ? f.iters[d] : 0); }
    k.push_back(b.ord);
    k.push_back(f.i);
  }
  if (!fr.empty()) k.push_back(-10 + fr.back().phase);
  return k;
}
Key Engine::keyOf(const State& s, bool iters) { Key k = keyOfFrames(s.frames, iters); if (s.resumed) k.push_back(-5); return k; }
void Engine::push(State&& s) {
  if (isF(s.guard)) return;
  Key k = keyOf(s, true);
  auto it = wl.find(k);
  if (it == wl.end()) wl.emplace(std::move(k), std::move(s));
  else mergeState(it->second, std::move(s));
}
void Engine::runWL() {
  while (!wl.empty() && !stop) {
    auto it = wl.begin();
    State s = std::move(it->second);
    wl.erase(it);
    exec(s);
    if (elapsed() > opt.budget) { stop = true; outcome = "timeout"; }
  }
}
std::string Engine::locOf(State& s) {
  std::string r;
  for (int k = (int)s.frames.size() - 1, n = 0; k >= 0 && n < 4; k--, n++) {
    auto& f = s.frames[k];
    auto& b = f.fi->blocks[f.b];
    std::string x = demangle(f.fi->f->getName().str());
    auto p = x.find('('); if (p != std::string::npos) x = x.substr(0, p);
    if (f.i < (int)b.insts.size()) if (auto& dl = b.insts[f.i]->getDebugLoc()) {
      x += "@"; auto fn = dl->getFilename().str(); auto q = fn.rfind('/'); x += fn.substr(q == std::string::npos ? 0 : q + 1); x += ":" + std::to_string(dl.getLine());
    }
    if (!r.empty()) r += " < ";
    r += x;
  }
  return r;
}
void Engine::violate(State& s, E cond, const std::string& kind, const std::string& msg) {
  E g = mkAnd(s.guard, cond);
  if (isF(g)) return;
  viols.push_back({step, g, kind, msg, locOf(s)});
}
void Engine::cover(State& s, const std::string& n) { covers.push_back({step, s.guard, "cover", n, ""}); }
void Engine::unsupported(State& s, const std::string& msg) {
  viols.push_back({step, s.guard, "unsupported", msg, locOf(s)});
  unsupportedSeen.insert(msg + " at " + locOf(s));
  kill(s, T());
}
void Engine::kill(State& s, E cond) {
  E g = mkAnd(s.guard, cond);
  if (isF(g)) return;
  stepKills.push_back(g);
  s.guard = mkAnd(s.guard, mkNot(cond));
}
void Engine::event(State& s, const std::string& kind, std::vector<E> v, E extra) {
  events.push_back({step, extra ? mkAnd(s.guard, extra) : s.guard, kind, std::move(v)});
}
bool Engine::feasible(State& s) { return solver.check(s.guard) != Res::UNSAT; }

void Engine::pushFrame(State& s, Function* fn, std::vector<Val> args, u64 chain) {
  FnInfo* fi = info(fn);
  Frame f; f.fi = fi; f.regs.resize(fi->nslots); f.chain = chain;
  for (size_t i = 0; i < args.size() && i < fn->arg_size(); i++) f.regs[i] = args[i];
  f.iters.resize(fi->blocks[0].loops.size(), 0);
  s.frames.push_back(std::move(f));
  if (funcsSeen.insert(fn->getName().str()).second)
    if (auto* sp = fn->getSubprogram()) { auto p = sp->getFilename().str(); if (p.find("/include/") != std::string::npos && p.find("/usr/") == std::string::npos && p.find("llvm") == std::string::npos && p.find("/shim/") == std::string::npos) repoFuncs[demangle(fn->getName().str())] = sp->getLine(); }
}
void Engine::popFrame(State& s) {
  for (u64 a : s.frames.back().allocas) {
    s.mem.del(a);
  }
  s.frames.pop_back();
}
void Engine::takeEdge(State& s, int to) {
  Frame& f = s.frames.back();
  int from = f.b;
  auto& fb = f.fi->blocks[from]; auto& tb = f.fi->blocks[to];
  if (tb.firstNonPhi) {
    std::vector<Val> vals;
    for (int p = 0; p < tb.firstNonPhi; p++) vals.push_back(get(s, cast<PHINode>(tb.insts[p])->getIncomingValueForBlock(fb.bb)));
    Frame& g = s.frames.back();
    for (int p = 0; p < tb.firstNonPhi; p++) g.regs[g.fi->slot[tb.insts[p]]] = vals[p];
  }
  std::vector<int> it(tb.loops.size(), 0);
  bool same = true, back = false;
  for (size_t d = 0; d < tb.loops.size(); d++) {
    if (same && d < fb.loops.size() && fb.loops[d].loop == tb.loops[d].loop) it[d] = f.iters[d];
    else same = false;
    if (same && d + 1 == tb.loops.size() && f.fi->loopHeader[tb.loops[d].loop] == to) { it[d]++; back = true; }
  }
  f.iters = it; f.b = to; f.i = tb.firstNonPhi;
  if (back) {
    unsigned n = it.back();
    if (n >= opt.softUnwind && (n & (n - 1)) == 0) { if (!feasible(s)) { s.guard = F(); return; } }
    else if (n >= opt.softUnwind && n < 4 * opt.softUnwind) { if (!feasible(s)) { s.guard = F(); return; } }
    if (n > opt.hardUnwind) unsupported(s, "unwind bound exceeded");
  }
}
static bool isGuardVar(const Value* p) {
  p = p->stripInBoundsConstantOffsets();
  return p->getName().starts_with("_ZGV");
}
bool Engine::isSync(State& s, Instruction* i) {
  if (auto* l = dyn_cast<LoadInst>(i)) return l->isAtomic() && !isGuardVar(l->getPointerOperand());
  if (auto* l = dyn_cast<StoreInst>(i)) return l->isAtomic() && !isGuardVar(l->getPointerOperand());
  if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i)) return true;
  if (auto* cb = dyn_cast<CallBase>(i)) if (auto* f = cb->getCalledFunction()) { auto* m = modelFor(f); return m && m->sync; }
  return false;
}
void Engine::park(State& s) {
  for (auto& f : s.frames) for (auto& x : f.iters) x = 0;
  pruneDead(s, s.frames);
  s.resumed = false;
  Key k = keyOf(s, false);
  auto it = ends.find(k);
  if (it == ends.end()) ends.emplace(std::move(k), std::move(s)); else mergeState(it->second, std::move(s));
}
void Engine::done(State& s) {
  s.frames.clear();
  Key k;
  auto it = ends.find(k);
  if (it == ends.end()) ends.emplace(k, std::move(s)); else mergeState(it->second, std::move(s));
}
bool Engine::doReturn(State& s, Val v) {
  popFrame(s);
  if (s.frames.empty()) { done(s); return false; }
  auto& f = s.frames.back();
  auto* cb = cast<CallBase>(f.fi->blocks[f.b].insts[f.i]);
  finishCall(s, cb, v);
  return true;
}
void Engine::finishCall(State& s, CallBase* cb, Val v) {
  if (!cb->getType()->isVoidTy() && (v.e || v.agg)) set(s, cb, v);
  s.resumed = false;
  s.frames.back().phase = 0;
  if (auto* iv = dyn_cast<InvokeInst>(cb)) { auto& f = s.frames.back(); takeEdge(s, f.fi->bidx[iv->getNormalDest()]); }
  else s.frames.back().i++;
}
int Engine::typeId(const Value* ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; return typeIds[ti] = n; }

static const char* extBase(StringRef n) {
  static const std::map<std::string, const char*> m = {
    {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}};
  auto it = m.find(n.str());
  return it == m.end() ? nullptr : it->second;
}
bool Engine::tiMatches(u64 thrown, const Constant* ct) {
  u64 want = (u64)constVal(ct).e->c;
  std::string curName; u64 cur = thrown;
  for (int n = 0; n < 16; n++) {
    if (cur == want) return true;
    auto it = gvaddr.find(cur);
    std::string nm;
    const GlobalVariable* gv = nullptr;
    if (it != gvaddr.end()) { gv = it->second; nm = gv->getName().str(); }
    else for (auto& x : extraG) if (x.second == cur) nm = x.first;
    if (nm.empty()) return false;
    if (gv && gv->hasInitializer()) {
      auto* c = gv->getInitializer();
      if (c->getType()->getStructNumElements() < 3) return false;
      cur = (u64)constVal(cast<Constant>(c->getAggregateElement(2u))).e->c;
    } else if (auto* b = extBase(nm)) cur = gvAddrByName(b);
    else return false;
  }
  return false;
}
// exception object layout: header of 32 bytes before the object; [0,8) typeinfo address
bool Engine::unwind(State& s, E exc) {
  E ti = loadG(s, mkSub(exc, mkConst(32, 64)), 8);
  std::vector<std::pair<u128, E>> lv;
  if (!leaves(ti, lv)) { unsupported(s, "unwind with unknown exception type"); return false; }
  while (!s.frames.empty()) {
    auto& f = s.frames.back();
    auto* in = f.fi->blocks[f.b].insts[f.i];
    if (auto* iv = dyn_cast<InvokeInst>(in)) {
      auto* lp = iv->getLandingPadInst();
      std::vector<std::pair<int, E>> sel; E through = F();
      for (auto& l : lv) {
        if (lv.size() > 1 && isF(mkAnd(s.guard, l.second))) continue;
        int selv = -1;
        for (unsigned c = 0; c < lp->getNumClauses(); c++) {
          if (!lp->isCatch(c)) { selv = -2; break; }
          Constant* cl = lp->getClause(c);
          if (isa<ConstantPointerNull>(cl)) { selv = 1000000; break; }
          if (tiMatches((u64)l.first, cl)) { selv = typeId(cl->stripPointerCasts()); break; }
        }
        if (selv == -2) { unsupported(s, "exception filter"); return false; }
        if (selv < 0 && lp->isCleanup()) selv = 0;
        if (selv < 0) through = mkOr(through, l.second); else sel.push_back({selv, l.second});
      }
      if (sel.empty()) { popFrame(s); continue; }
      if (!isF(through)) {
        State t = s; t.guard = mkAnd(t.guard, through); popFrame(t);
        s.guard = mkAnd(s.guard, mkNot(through));
        if (unwind(t, exc)) push(std::move(t));
      }
      E se = nullptr;
      for (auto& p : sel) { E c = mkConst(p.first, 32); se = se ? mkIte(p.second, c, se) : c; }
      auto& g = s.frames.back();
      s.resumed = false; g.phase = 0;
      takeEdge(s, g.fi->bidx[iv->getUnwindDest()]);
      if (isF(s.guard)) return false;
      Val v; v.agg = std::make_shared<std::vector<Val>>();
      Val a, b; a.e = exc; b.e = se; v.agg->push_back(a); v.agg->push_back(b);
      // the landing pad is the first non-phi instruction: execute it here
      set(s, lp, v);
      s.frames.back().i++;
      return true;
    }
    popFrame(s);
  }
  State dummy; dummy.guard = s.guard; dummy.tid = s.tid;
  violate(dummy, T(), "exception", "uncaught exception leaves the thread function");
  kill(s, T());
  return false;
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SLE: return mkSle(a, b);
    case CmpInst::ICMP_SGE: return mkSle(b, a);
    default: abort();
  }
}
static double asD(E e) { if (e->w == 32) { uint32_t u = (uint32_t)e->c; float f; memcpy(&f, &u, 4); return f; } u64 u = (u64)e->c; double d; memcpy(&d, &u, 8); return d; }
static E fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return mkConst(u, 32); } u64 u; memcpy(&u, &d, 8); return mkConst(u, 64); }

// run one state until it parks, ends, or has been pushed back on the worklist
void Engine::exec(State& s) {
  nStates++;
  for (;;) {
    if (isF(s.guard) || stop) return;
    Frame& f = s.frames.back();
    BlockInfo& b = f.fi->blocks[f.b];
    Instruction* in = b.insts[f.i];
    nInsts++;
    if (!s.resumed && f.phase == 0 && mode != SEQ && isSync(s, in)) { park(s); return; }
    auto adv = [&]() { s.frames.back().i++; };
    auto setE = [&](E e) { Val v; v.e = e; set(s, in, v); };
    switch (in->getOpcode()) {
      case Instruction::Alloca: {
        auto* al = cast<AllocaInst>(in);
        u64 n = 1;
        if (al->isArrayAllocation()) { E c = getE(s, al->getArraySize()); if (!isC(c)) { unsupported(s, "variable alloca"); return; } n = (u64)c->c; }
        u64 sz = DL.getTypeAllocSize(al->getAllocatedType()) * n;
        auto key = std::make_tuple(s.tid, f.chain, (const Value*)al);
        auto it = stackAddr.find(key);
        u64 a;
        if (it == stackAddr.end()) { a = nextStack; nextStack += (sz + 79) & ~15ull; stackAddr[key] = a; } else a = it->second;
        Obj* o = new Obj; o->base = a; o->size = sz ? sz : 1; o->alive = T(); o->kind = OSTACK; o->tid = s.tid; o->site = al;
        s.mem.add(ObjP(o));
        if (opt.hb && s.mem.hb) { auto& ac = s.mem.hbw().acc; auto q = ac.lower_bound({a, 0}); while (q != ac.end() && q->first.first < a + sz) q = ac.erase(q); }
        f.allocas.push_back(a);
        setE(mkConst(a, 64)); adv(); break;
      }
      case Instruction::Load: {
        auto* l = cast<LoadInst>(in);
        E p = getE(s, l->getPointerOperand());
        if (l->isAtomic()) {
          unsigned n = msize(l->getType());
          E x = loadG(s, p, n);
          hbAtomicRead(s, p, n, l->getOrdering(), T());
          Val v; unsigned w = width(l->getType()); v.e = x->w == w ? x : mkExtract(x, 0, w);
          set(s, in, v);
        } else set(s, in, loadTy(s, p, l->getType()));
        s.resumed = false; adv(); break;
      }
      case Instruction::Store: {
        auto* l = cast<StoreInst>(in);
        E p = getE(s, l->getPointerOperand());
        Val v = get(s, l->getValueOperand());
        if (l->isAtomic()) {
          unsigned n = msize(l->getValueOperand()->getType());
          storeG(s, p, n, mkZext(v.e, n * 8));
          hbAtomicWrite(s, p, n, l->getOrdering(), T(), false);
        } else storeTy(s, p, l->getValueOperand()->getType(), v);
        s.resumed = false; adv(); break;
      }
      case Instruction::AtomicRMW: {
        auto* r = cast<AtomicRMWInst>(in);
        E p = getE(s, r->getPointerOperand()), v = getE(s, r->getValOperand());
        unsigned n = msize(r->getType()), w = width(r->getType());
        E o = loadG(s, p, n); if (o->w != w) o = mkExtract(o, 0, w);
        E nv;
        switch (r->getOperation()) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = mkAdd(o, v); break;
          case AtomicRMWInst::Sub: nv = mkSub(o, v); break;
          case AtomicRMWInst::And: nv = mkBin(K::BAND, o, v); break;
          case AtomicRMWInst::Or: nv = mkBin(K::BOR, o, v); break;
          case AtomicRMWInst::Xor: nv = mkBin(K::BXOR, o, v); break;
          default: unsupported(s, "atomicrmw op"); return;
        }
        storeG(s, p, n, mkZext(nv, n * 8));
        hbAtomicRead(s, p, n, r->getOrdering(), T()); hbAtomicWrite(s, p, n, r->getOrdering(), T(), true);
        setE(o); s.resumed = false; adv(); break;
      }
      case Instruction::AtomicCmpXchg: {
        auto* r = cast<AtomicCmpXchgInst>(in);
        E p = getE(s, r->getPointerOperand()), c = getE(s, r->getCompareOperand()), v = getE(s, r->getNewValOperand());
        unsigned n = msize(r->getCompareOperand()->getType()), w = width(r->getCompareOperand()->getType());
        E o = loadG(s, p, n); if (o->w != w) o = mkExtract(o, 0, w);
        E ok = mkEq(o, c);
        if (r->isWeak() && opt.weakcas && mode == CONC && !inTail) {
          E cnt = loadG(s, mkConst(spurCell() + 8, 64), 8);
          E fz = mkAnd(fresh("casfail", 1), mkUlt(cnt, mkConst(opt.weakcas, 64)));
          E fl = mkAnd(ok, fz);
          storeG(s, mkConst(spurCell() + 8, 64), 8, mkIte(fl, mkAdd(cnt, mkConst(1, 64)), cnt));
          event(s, "casfail", {mkZext(fl, 32)});
          ok = mkAnd(ok, mkNot(fz));
        }
        storeG(s, p, n, mkZext(mkIte(ok, v, o), n * 8));
        hbAtomicRead(s, p, n, r->getSuccessOrdering(), ok); hbAtomicRead(s, p, n, r->getFailureOrdering(), mkNot(ok)); hbAtomicWrite(s, p, n, r->getSuccessOrdering(), ok, true);
        Val x; x.agg = std::make_shared<std::vector<Val>>(); Val a, q; a.e = o; q.e = ok; x.agg->push_back(a); x.agg->push_back(q);
        set(s, in, x); s.resumed = false; adv(); break;
      }
      case Instruction::Fence: {
        if (opt.hb && mode != SEQ) {
          auto od = cast<FenceInst>(in)->getOrdering();
          HB& h = s.mem.hbw();
          if (isAcquireOrStronger(od)) for (auto& z : h.pend[s.tid]) { auto it = h.thr[s.tid].find(z.first); if (it == h.thr[s.tid].end()) h.thr[s.tid][z.first] = z.second; else it->second = mkOr(it->second, z.second); }
          if (isReleaseOrStronger(od)) { curEv(s); HB& h2 = s.mem.hbw(); h2.rel[s.tid] = h2.thr[s.tid]; hbBump(s); }
        }
        adv(); break;
      }
      case Instruction::GetElementPtr: {
        auto* g = cast<GEPOperator>(in);
        E p = getE(s, g->getPointerOperand());
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value* idx = gti.getOperand();
          if (StructType* st = gti.getStructTypeOrNull()) {
            unsigned k = (unsigned)cast<ConstantInt>(idx)->getZExtValue();
            p = mkAdd(p, mkConst(DL.getStructLayout(st)->getElementOffset(k), 64));
          } else {
            u64 sz = DL.getTypeAllocSize(gti.getIndexedType());
            E x = getE(s, idx); if (x->w < 64) x = mkSext(x, 64);
            p = mkAdd(p, mkMul(x, mkConst(sz, 64)));
          }
        }
        setE(p); adv(); break;
      }
      case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(in);
        setE(icmp(c->getPredicate(), getE(s, c->getOperand(0)), getE(s, c->getOperand(1)))); adv(); break;
      }
      case Instruction::Select: {
        E c = getE(s, in->getOperand(0));
        set(s, in, mergeVal(c, get(s, in->getOperand(1)), get(s, in->getOperand(2)))); adv(); break;
      }
      case Instruction::Add: setE(mkAdd(getE(s, in->getOperand(0)), getE(s, in->getOperand(1)))); adv(); break;
      case Instruction::Sub: setE(mkSub(getE(s, in->getOperand(0)), getE(s, in->getOperand(1)))); adv(); break;
      case Instruction::Mul: setE(mkMul(getE(s, in->getOperand(0)), getE(s, in->getOperand(1)))); adv(); break;
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        static const std::map<unsigned, K> km = {{Instruction::UDiv, K::UDIV}, {Instruction::URem, K::UREM}, {Instruction::SDiv, K::SDIV}, {Instruction::SRem, K::SREM}, {Instruction::Shl, K::SHL}, {Instruction::LShr, K::LSHR}, {Instruction::AShr, K::ASHR}, {Instruction::And, K::BAND}, {Instruction::Or, K::BOR}, {Instruction::Xor, K::BXOR}};
        E x = getE(s, in->getOperand(0)), y = getE(s, in->getOperand(1));
        K k = km.at(in->getOpcode());
        if (k >= K::UDIV && k <= K::SREM) { E z = mkEq(y, mkConst(0, y->w)); if (!isF(z)) violate(s, z, "arith", "division by zero"); }
        setE(mkBin(k, x, y)); adv(); break;
      }
      case Instruction::Trunc: setE(mkExtract(getE(s, in->getOperand(0)), 0, width(in->getType()))); adv(); break;
      case Instruction::ZExt: setE(mkZext(getE(s, in->getOperand(0)), width(in->getType()))); adv(); break;
      case Instruction::SExt: setE(mkSext(getE(s, in->getOperand(0)), width(in->getType()))); adv(); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        Val v = get(s, in->getOperand(0)); unsigned w = width(in->getType());
        if (v.e && w && v.e->w != w) v.e = v.e->w > w ? mkExtract(v.e, 0, w) : mkZext(v.e, w);
        set(s, in, v); adv(); break;
      }
      case Instruction::ExtractValue: {
        auto* x = cast<ExtractValueInst>(in); Val v = get(s, x->getAggregateOperand());
        for (unsigned k : x->indices()) { Val n = (*v.agg)[k]; v = n; }
        set(s, in, v); adv(); break;
      }
      case Instruction::InsertValue: {
        auto* x = cast<InsertValueInst>(in); Val v = get(s, x->getAggregateOperand()), y = get(s, x->getInsertedValueOperand());
        std::function<Val(Val, unsigned)> rec = [&](Val a, unsigned d) -> Val {
          if (d == x->getNumIndices()) return y;
          Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg);
          unsigned k = x->getIndices()[d]; (*r.agg)[k] = rec((*a.agg)[k], d + 1); return r; };
        set(s, in, rec(v, 0)); adv(); break;
      }
      case Instruction::FCmp: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
        std::vector<E> a; bool ok = true;
        for (auto& op : in->operands()) { Val v = get(s, op); if (!v.e || !isC(v.e)) ok = false; a.push_back(v.e); }
        unsigned w = width(in->getType());
        if (!ok || !w) { unsupported(s, "symbolic floating point"); return; }
        switch (in->getOpcode()) {
          case Instruction::UIToFP: setE(fromD((double)(u64)a[0]->c, w)); break;
          case Instruction::SIToFP: setE(fromD((double)(int64_t)sx(a[0]->c, a[0]->w), w)); break;
          case Instruction::FPToUI: setE(mkConst((u64)asD(a[0]), w)); break;
          case Instruction::FPToSI: setE(mkConst((u64)(int64_t)asD(a[0]), w)); break;
          case Instruction::FPExt: case Instruction::FPTrunc: setE(fromD(asD(a[0]), w)); break;
          case Instruction::FAdd: setE(fromD(asD(a[0]) + asD(a[1]), w)); break;
          case Instruction::FSub: setE(fromD(asD(a[0]) - asD(a[1]), w)); break;
          case Instruction::FMul: setE(fromD(asD(a[0]) * asD(a[1]), w)); break;
          case Instruction::FDiv: setE(fromD(asD(a[0]) / asD(a[1]), w)); break;
          default: { double x = asD(a[0]), y = asD(a[1]); bool r;
            switch (cast<FCmpInst>(in)->getPredicate()) { case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; default: r = x != y; }
            setE(mkBool(r)); }
        }
        adv(); break;
      }
      case Instruction::Br: {
        auto* br = cast<BranchInst>(in);
        if (br->isUnconditional()) { takeEdge(s, f.fi->bidx[br->getSuccessor(0)]); }
        else {
          E c = getE(s, br->getCondition());
          E gt = mkAnd(s.guard, c), gf = mkAnd(s.guard, mkNot(c));
          int bt = f.fi->bidx[br->getSuccessor(0)], bf = f.fi->bidx[br->getSuccessor(1)];
          if (isF(gt)) takeEdge(s, bf);
          else if (isF(gf)) takeEdge(s, bt);
          else {
            nForks++;
            State o = s; o.guard = gf; s.guard = gt;
            takeEdge(o, bf); takeEdge(s, bt);
            push(std::move(o)); push(std::move(s));
            return;
          }
        }
        if (!wl.empty()) { push(std::move(s)); return; }
        break;
      }
      case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(in);
        E c = getE(s, sw->getCondition());
        E none = T(); std::map<int, E> tg; 
        for (auto& cs : sw->cases()) {
          E q = mkEq(c, constVal(cs.getCaseValue()).e);
          int t = f.fi->bidx[cs.getCaseSuccessor()];
          // phis depend only on the predecessor block, so same-target cases can be joined
          tg[t] = tg.count(t) ? mkOr(tg[t], q) : q;
          none = mkAnd(none, mkNot(q));
        }
        int d = f.fi->bidx[sw->getDefaultDest()];
        tg[d] = tg.count(d) ? mkOr(tg[d], none) : none;
        for (auto& t : tg) { E g = mkAnd(s.guard, t.second); if (isF(g)) continue; State o = s; o.guard = g; takeEdge(o, t.first); push(std::move(o)); }
        return;
      }
      case Instruction::Ret: {
        Val v; if (in->getNumOperands()) v = get(s, in->getOperand(0));
        if (!doReturn(s, v)) return;
        if (!wl.empty()) { push(std::move(s)); return; }
        break;
      }
      case Instruction::Unreachable: { violate(s, T(), "unreachable", "unreachable code reached (undefined behaviour or missing return)"); kill(s, T()); return; }
      case Instruction::Resume: {
        Val v = get(s, in->getOperand(0));
        E exc = (*v.agg)[0].e;
        popFrame(s);
        if (!unwind(s, exc)) return;
        if (!wl.empty()) { push(std::move(s)); return; }
        break;
      }
      case Instruction::LandingPad: { unsupported(s, "landingpad reached by normal flow"); return; }
      case Instruction::Call: case Instruction::Invoke: {
        CallRes r = doCall(s, cast<CallBase>(in));
        if (r == KILLED || r == PARKED || r == FORKED) return;
        if (isF(s.guard)) return;
        if (r == UNWIND && !wl.empty()) { push(std::move(s)); return; }
        if (r == NEXT && isa<InvokeInst>(in) && !wl.empty()) { push(std::move(s)); return; }
        break;
      }
      default: { std::string t; raw_string_ostream os(t); in->print(os); unsupported(s, "instruction " + t); return; }
    }
  }
}
Engine::CallRes Engine::doCall(State& s, CallBase* cb) {
  if (cb->isInlineAsm()) {
    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
    if (StringRef(ia->getAsmString()).trim().empty() || ia->getAsmString() == "pause" || ia->getAsmString() == "nop") { finishCall(s, cb, Val()); return NEXT; }
    unsupported(s, "inline asm"); return KILLED;
  }
  if (auto* f = cb->getCalledFunction()) return callFn(s, cb, f);
  E p = getE(s, cb->getCalledOperand());
  std::vector<std::pair<u128, E>> lv;
  if (!leaves(p, lv)) { unsupported(s, "indirect call through unknown pointer"); return KILLED; }
  std::vector<std::pair<Function*, E>> tg;
  for (auto& l : lv) {
    if (lv.size() > 1 && isF(mkAnd(s.guard, l.second))) continue;
    auto it = faddr.find((u64)l.first);
    if (it == faddr.end()) { State t = s; t.guard = mkAnd(s.guard, l.second); if (l.first < 4096) { violate(t, T(), "memory", "call through null function pointer"); kill(t, T()); } else unsupported(t, "call to unknown function address"); continue; }
    tg.push_back({it->second, l.second});
  }
  if (tg.empty()) return KILLED;
  if (tg.size() == 1) { if (lv.size() > 1) s.guard = mkAnd(s.guard, tg[0].second); return callFn(s, cb, tg[0].first); }
  for (auto& t : tg) {
    State o = s; o.guard = mkAnd(s.guard, t.second);
    CallRes r = callFn(o, cb, t.first);
    if (r == NEXT || r == ENTERED || r == UNWIND) push(std::move(o));
  }
  return FORKED;
}
static bool sameRec(State& s, Function* f) { int n = 0; for (auto& x : s.frames) if (x.fi->f == f) n++; return n >= 3; }
Engine::CallRes Engine::callFn(State& s, CallBase* cb, Function* f) {
  if (auto* m = modelFor(f)) {
    std::vector<E> args;
    for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { args.push_back(nullptr); continue; } Val v = get(s, a); args.push_back(v.e); }
    Val rv;
    CallRes r = m->fn(s, cb, args, rv);
    if (r == NEXT) {
      if (isF(s.guard)) return KILLED;
      if (!rv.e && !rv.agg && !cb->getType()->isVoidTy()) rv = constVal(Constant::getNullValue(cb->getType()));
      // adapt widths
      if (rv.e) { unsigned w = width(cb->getType()); if (w && rv.e->w != w) rv.e = rv.e->w > w ? mkExtract(rv.e, 0, w) : mkZext(rv.e, w); }
      if (rv.e && cb->getType()->isStructTy()) rv = constVal(Constant::getNullValue(cb->getType()));
      finishCall(s, cb, rv);
    }
    return r;
  }
  if (f->isDeclaration()) { unsupported(s, "external function " + f->getName().str()); return KILLED; }
  if (s.frames.size() > 300) { unsupported(s, "call depth"); return KILLED; }
  if (sameRec(s, f)) { if (!feasible(s)) { s.guard = F(); return KILLED; } if (s.frames.size() > 120) { violate(s, T(), "recursion", "runaway recursion (call depth over 120)"); kill(s, T()); return KILLED; } }
  std::vector<Val> args;
  auto key = std::make_pair(s.frames.back().chain, (const Value*)cb);
  auto it = chainIds.find(key);
  u64 chain = it != chainIds.end() ? it->second : (chainIds[key] = chainIds.size() + 2);
  unsigned k = 0;
  for (auto& a : cb->args()) {
    Val v = get(s, a);
    if (cb->isByValArgument(k)) {
      u64 n = DL.getTypeAllocSize(cb->getParamByValType(k));
      auto sk = std::make_tuple(s.tid, chain, (const Value*)f->getArg(k));
      auto si = stackAddr.find(sk); u64 a2;
      if (si == stackAddr.end()) { a2 = nextStack; nextStack += (n + 79) & ~15ull; stackAddr[sk] = a2; } else a2 = si->second;
      Obj* o = new Obj; o->base = a2; o->size = n; o->alive = T(); o->kind = OSTACK; o->tid = s.tid;
      s.mem.add(ObjP(o));
      copyMem(s, mkConst(a2, 64), v.e, n);
      v.e = mkConst(a2, 64);
      args.push_back(v);
      k++; continue;
    }
    args.push_back(v); k++;
  }
  pushFrame(s, f, args, chain);
  for (unsigned q = 0; q < cb->arg_size(); q++) if (cb->isByValArgument(q)) s.frames.back().allocas.push_back((u64)args[q].e->c);
  return ENTERED;
}
