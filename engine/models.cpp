// models of the environment: threads API, clocks, C++ runtime
#include "engine.hpp"
using namespace vx;
static E c64(u64 x) { return mkConst(x, 64); }
static E c32(u64 x) { return mkConst(x, 32); }
static const u64 TBASE = 1ull << 40;          // steady time origin (ns)
static const u64 SYSOFF = 1ull << 50;         // system_clock - steady_clock
static const int EBUSY_ = 16, ETIMEDOUT_ = 110, EPERM_ = 1, EDEADLK_ = 35, EAGAIN_ = 11, EINVAL_ = 22, EINTR_ = 4, EOVERFLOW_ = 75;

E Engine::clockMax() { return c64(TBASE + (1ull << opt.clockBits) - 1); }
E Engine::nowVar(State&) { return nowE ? nowE : c64(TBASE); }
E Engine::tsToNs(State& s, E ts, E* bad, bool sys) {
  E sec = loadInt(s, ts, 8), ns = loadInt(s, mkAdd(ts, c64(8)), 8);
  if (bad) *bad = opt.tspec ? mkOr(mkSlt(ns, c64(0)), mkSlt(c64(999999999), ns)) : F();
  E r = mkAdd(mkMul(sec, c64(1000000000)), ns);
  if (sys) r = mkSub(r, c64(SYSOFF));
  return r;
}
// pthread_mutex_t: count@4, owner@8 (tid+1), kind@16
E Engine::mutexFree(State& s, E m, E* rec) {
  E ow = loadG(s, mkAdd(m, c64(8)), 4), kind = loadG(s, mkAdd(m, c64(16)), 4);
  E self = mkEq(ow, tidE(s));
  E isRec = mkEq(mkBin(K::BAND, kind, c32(3)), c32(1));
  if (rec) *rec = mkAnd(self, isRec);
  return mkOr(mkEq(ow, c32(0)), mkAnd(self, isRec));
}
void Engine::mutexTake(State& s, E m) {
  E cnt = loadG(s, mkAdd(m, c64(4)), 4);
  storeG(s, mkAdd(m, c64(4)), 4, mkAdd(cnt, c32(1)));
  storeG(s, mkAdd(m, c64(8)), 4, tidE(s));
  hbAcquire(s, s.tid, m, T());
}
void Engine::mutexRelease(State& s, E m) {
  E ow = loadG(s, mkAdd(m, c64(8)), 4), cnt = loadG(s, mkAdd(m, c64(4)), 4);
  E mine = mkEq(ow, tidE(s));
  if (!isT(mine)) violate(s, mkNot(mine), "unlock", "underlying mutex unlocked by a thread that does not own it");
  E last = mkEq(cnt, c32(1));
  storeG(s, mkAdd(m, c64(4)), 4, mkSub(cnt, c32(1)));
  hbRelease(s, s.tid, m, last);
  storeG(s, mkAdd(m, c64(8)), 4, mkIte(last, c32(0), ow));
}
static E okRet(E cond, int err) { return mkIte(cond, c32(0), c32(err)); }

void Engine::notify(State& s, E cv, bool all) {
  std::vector<E> cand(nthreads), left(nthreads);
  bool any = false;
  std::vector<E> leftBits;
  for (int t = 0; t < nthreads; t++) {
    E wcv = loadG(s, c64(waitCell(t)), 8), st = loadG(s, c64(waitCell(t) + 8), 8);
    E w = mkAnd(mkEq(wcv, cv), mkEq(st, c64(1)));
    if (isF(mkAnd(s.guard, w))) { cand[t] = F(); left[t] = F(); continue; }
    left[t] = F();
    if (!all && mode == CONC && !inTail) {
      E timed = mkEq(loadG(s, c64(waitCell(t) + 24), 8), c64(1)), dl = loadG(s, c64(waitCell(t) + 16), 8);
      E exp = mkAnd(timed, mkSle(dl, nowVar(s)));
      E allowed = exp;
      E sp = F(), cnt = nullptr;
      if (opt.spurious) { cnt = loadG(s, c64(spurCell()), 8); sp = mkUlt(cnt, c64(opt.spurious)); allowed = mkOr(exp, sp); }
      if (!isF(mkAnd(mkAnd(s.guard, w), allowed))) {
        E b = fresh("left", 1);
        left[t] = mkAnd(w, mkAnd(b, allowed));
        if (cnt) storeG(s, c64(spurCell()), 8, mkIte(mkAnd(left[t], mkNot(exp)), mkAdd(cnt, c64(1)), cnt));
      }
    }
    cand[t] = mkAnd(w, mkNot(left[t]));
    any = true;
  }
  if (!any) { event(s, "notify", {c64(all), c64(99), c64(0)}); return; }
  E leftMask = c64(0);
  for (int t = 0; t < nthreads; t++) if (left[t] && !isF(left[t])) leftMask = mkAdd(leftMask, mkIte(left[t], c64(1ull << t), c64(0)));
  if (all) {
    for (int t = 0; t < nthreads; t++) if (!isF(cand[t])) { E st = loadG(s, c64(waitCell(t) + 8), 8); storeG(s, c64(waitCell(t) + 8), 8, mkIte(cand[t], c64(2), st)); }
    event(s, "notify", {c64(1), c64(99), leftMask});
    return;
  }
  int n = 0; for (auto c : cand) if (!isF(c)) n++;
  E pick = nullptr, picked = c64(99);
  if (n > 1) { pick = fresh("pick", 3); }
  std::vector<E> chosen, cs;
  for (int t = 0; t < nthreads; t++) {
    if (isF(cand[t])) { chosen.push_back(F()); continue; }
    E c = pick ? mkAnd(cand[t], mkEq(pick, mkConst(t, 3))) : cand[t];
    chosen.push_back(c); cs.push_back(c);
    picked = mkIte(c, c64(t), picked);
    E st = loadG(s, c64(waitCell(t) + 8), 8);
    storeG(s, c64(waitCell(t) + 8), 8, mkIte(left[t], c64(3), mkIte(c, c64(2), st)));
  }
  if (pick) { std::vector<E> cc; for (auto c : cand) if (!isF(c)) cc.push_back(c); kill(s, mkAnd(mkOrV(cc), mkNot(mkOrV(cs)))); }
  event(s, "notify", {c64(0), picked, leftMask});
}
// phase 0: release and start waiting; phase 1 (resumed): reacquire.
Engine::CallRes Engine::cvWait(State& s, CallBase* cb, E cv, E m, E dl, bool timed, Val& rv) {
  (void)cb;
  Frame& f = s.frames.back();
  u64 w = waitCell(s.tid);
  if (f.phase == 0) {
    if (mode == SEQ) { violate(s, T(), "blocked", "condition wait in sequential code"); kill(s, T()); return KILLED; }
    E ow = loadG(s, mkAdd(m, c64(8)), 4);
    E mine = mkEq(ow, tidE(s));
    if (!isT(mine)) violate(s, mkNot(mine), "cvwait", "condition wait without owning the mutex");
    mutexRelease(s, m);
    storeG(s, c64(w), 8, cv); storeG(s, c64(w + 8), 8, c64(1)); storeG(s, c64(w + 48), 8, c64(1));
    storeG(s, c64(w + 16), 8, timed ? dl : c64(0)); storeG(s, c64(w + 24), 8, c64(timed));
    s.frames.back().phase = 1;
    park(s);
    return PARKED;
  }
  // woken: enabledness was checked by the scheduler
  E st = loadG(s, c64(w + 8), 8);
  E expired = timed ? mkSle(dl, nowVar(s)) : F();
  E sp = mkAnd(mkEq(st, c64(1)), mkNot(expired));
  if (opt.spurious && mode == CONC) { E cnt = loadG(s, c64(spurCell()), 8); storeG(s, c64(spurCell()), 8, mkIte(sp, mkAdd(cnt, c64(1)), cnt)); }
  event(s, "wake", {st});
  storeG(s, c64(w), 8, c64(0)); storeG(s, c64(w + 8), 8, c64(0)); storeG(s, c64(w + 24), 8, c64(0)); storeG(s, c64(w + 16), 8, c64(0));
  mutexTake(s, m);
  rv.e = timed ? mkIte(expired, c32(ETIMEDOUT_), c32(0)) : c32(0);
  return NEXT;
}
E Engine::cvEnabled(State& s, E m, bool potential) {
  u64 w = waitCell(s.tid);
  E st = loadG(s, c64(w + 8), 8), timed = mkEq(loadG(s, c64(w + 24), 8), c64(1)), dl = loadG(s, c64(w + 16), 8);
  E wake = mkNot(mkEq(st, c64(1)));
  if (potential) wake = mkOr(wake, mkAnd(timed, mkSle(dl, clockMax())));
  else {
    wake = mkOr(wake, mkAnd(timed, mkSle(dl, nowVar(s))));
    if (opt.spurious && !inTail) wake = mkOr(wake, mkUlt(loadG(s, c64(spurCell()), 8), c64(opt.spurious)));
  }
  return mkAnd(wake, mutexFree(s, m));
}
E Engine::enabledAt(State& s, Instruction* in, bool potential, E*) {
  auto* cb = dyn_cast<CallBase>(in);
  if (!cb) return T();
  Function* f = cb->getCalledFunction();
  if (!f) return T();
  auto* m = modelFor(f);
  if (!m || !m->enabled) return T();
  std::vector<E> args;
  for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { args.push_back(nullptr); continue; } args.push_back(get(s, a).e); }
  return m->enabled(s, cb, args, potential);
}
Engine::ModelDef* Engine::modelFor(const Function* f) {
  auto it = modelCache.find(f);
  if (it != modelCache.end()) return it->second;
  ModelDef* r = nullptr;
  std::string n = f->getName().str();
  auto m = models.find(n);
  if (m != models.end()) r = &m->second;
  else for (auto& p : prefixModels) if (n.compare(0, p.first.size(), p.first) == 0) { r = &p.second; break; }
  return modelCache[f] = r;
}
E Engine::makeException(State& s, const std::string& ti, u64 size, const Value* site) {
  u64 a = allocHeap(s, size + 32, site, 1);
  storeG(s, c64(a), 8, c64(gvAddrByName(ti)));
  for (int i = s.mem.find(a); i >= 0;) { s.mem.wr(i).ghost = true; break; }
  return c64(a + 32);
}
bool Engine::throwSystem(State& s, CallBase* cb, E code) {
  E x = makeException(s, "_ZTISt12system_error", 32, cb);
  storeG(s, x, 8, c64(gvAddrByName("_ZTVSt12system_error", 64) + 16));
  storeG(s, mkAdd(x, c64(16)), 4, code);
  storeG(s, mkAdd(x, c64(24)), 8, c64(gvAddrByName("_vx_generic_category")));
  return unwind(s, x);
}
void Engine::initModels() {
  auto def = [&](const char* n, Model f) { models[n] = ModelDef{f, false, nullptr}; };
  auto sync = [&](const char* n, Model f, std::function<E(State&, CallBase*, std::vector<E>&, bool)> en) { models[n] = ModelDef{f, true, en}; };
  auto pre = [&](const char* n, Model f) { prefixModels.push_back({n, ModelDef{f, false, nullptr}}); };
  typedef std::vector<E> A;
  auto nop = [](State&, CallBase*, A&, Val&) { return NEXT; };
  auto zero = [](State&, CallBase*, A&, Val& r) { r.e = c64(0); return NEXT; };
  auto self = [](State&, CallBase*, A& a, Val& r) { r.e = a[0]; return NEXT; };
  auto blocked = [this](State& s, E en, const char* what) { // sequential code must not block
    if (mode == SEQ && !isT(en)) { violate(s, mkNot(en), "blocked", std::string(what) + " would block forever in sequential code"); kill(s, mkNot(en)); }
  };
  // ------------------------------------------------------------ harness API
  def("__vx_choice", [this](State& s, CallBase*, A& a, Val& r) {
    unsigned n = isC(a[0]) ? (unsigned)a[0]->c : 2;
    unsigned w = 1; while ((1u << w) < n) w++;
    E v = fresh("ch", w);
    std::vector<std::pair<u128, E>> it;
    E any = F();
    for (unsigned i = 0; i < n; i++) { E g = T(); if (w == 1) g = i ? v : mkNot(v); else g = mkEq(v, mkConst(i, w)); it.push_back({i, g}); any = mkOr(any, g); }
    if (n != (1u << w)) kill(s, mkNot(any));
    r.e = mkSet(it, 32);
    event(s, "choice", {r.e});
    return NEXT; });
  def("__vx_sym64", [this](State& s, CallBase*, A&, Val& r) { r.e = fresh("sym", 64); event(s, "sym64", {r.e}); return NEXT; });
  def("__vx_symbits", [this](State& s, CallBase*, A& a, Val& r) { unsigned w = (unsigned)a[0]->c; E v = fresh("sym", w); r.e = mkZext(v, 64); event(s, "sym64", {r.e}); return NEXT; });
  def("__vx_assume", [this](State& s, CallBase*, A& a, Val&) { kill(s, mkEq(a[0], mkConst(0, a[0]->w))); return isF(s.guard) ? KILLED : NEXT; });
  def("__vx_assert_", [this](State& s, CallBase* cb, A& a, Val&) {
    E bad = mkEq(a[0], mkConst(0, a[0]->w));
    if (!isF(bad)) {
      std::string msg = "assertion";
      StringRef str; if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts())) if (gv->hasInitializer()) if (auto* d = dyn_cast<ConstantDataSequential>(gv->getInitializer())) msg = d->getAsCString().str();
      violate(s, bad, "assert", msg);
    }
    stats["asserts"]++;
    return NEXT; });
  def("__vx_cover", [this](State& s, CallBase* cb, A&, Val&) {
    std::string msg = "cover";
    if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (gv->hasInitializer()) if (auto* d = dyn_cast<ConstantDataSequential>(gv->getInitializer())) msg = d->getAsCString().str();
    event(s, "cover", {});
    cover(s, msg); return NEXT; });
  sync("__vx_yield", nop, nullptr);
  def("__vx_tid", [](State& s, CallBase*, A&, Val& r) { r.e = s.symTid ? s.symTid : c32(s.tid); return NEXT; });
  def("__vx_set_tid", [](State& s, CallBase*, A& a, Val&) { if (a[0]->k == K::CONST) { s.tid = (int)a[0]->c; s.symTid = nullptr; } else { s.tid = 30; s.symTid = a[0]; } return NEXT; });
  def("__vx_now", [this](State& s, CallBase*, A&, Val& r) { r.e = nowVar(s); return NEXT; });
  def("__vx_step", [this](State&, CallBase*, A&, Val& r) { r.e = c32(step); return NEXT; });
  def("__vx_waiting", [this](State& s, CallBase*, A& a, Val& r) {
    std::vector<std::pair<u128, E>> lv; leaves(a[0], lv);
    E x = F(); for (auto& l : lv) x = mkOr(x, mkAnd(l.second, mkEq(loadG(s, c64(waitCell((int)l.first) + 8), 8), c64(1))));
    r.e = mkZext(x, 32); return NEXT; });
  def("__vx_waited", [this](State& s, CallBase*, A& a, Val& r) {
    std::vector<std::pair<u128, E>> lv; leaves(a[0], lv);
    E x = F(); for (auto& l : lv) x = mkOr(x, mkAnd(l.second, mkEq(loadG(s, c64(waitCell((int)l.first) + 48), 8), c64(1))));
    r.e = mkZext(x, 32); return NEXT; });
  def("__vx_waited_reset", [this](State& s, CallBase*, A&, Val&) { storeG(s, c64(waitCell(s.tid) + 48), 8, c64(0)); return NEXT; });
  def("__vx_clockmax", [this](State&, CallBase*, A&, Val& r) { r.e = clockMax(); return NEXT; });
  // ------------------------------------------------------------ pthread mutex
  auto mEn = [this](State& s, CallBase*, A& a, bool) { E kind = loadG(s, mkAdd(a[0], c64(16)), 4); E ec = mkAnd(mkEq(kind, c32(2)), mkEq(loadG(s, mkAdd(a[0], c64(8)), 4), tidE(s))); return mkOr(mutexFree(s, a[0]), ec); };
  sync("pthread_mutex_lock", [=, this](State& s, CallBase* cb, A& a, Val& r) {
    E en = mEn(s, cb, a, false); blocked(s, en, "mutex lock"); if (isF(s.guard)) return KILLED;
    E fr = mutexFree(s, a[0]);
    if (isT(fr) || mode == CONC || mode == SEQ) {
      E kind = loadG(s, mkAdd(a[0], c64(16)), 4); E ec = mkAnd(mkEq(kind, c32(2)), mkEq(loadG(s, mkAdd(a[0], c64(8)), 4), tidE(s)));
      if (isF(ec)) { mutexTake(s, a[0]); r.e = c32(0); return NEXT; }
      E cnt = loadG(s, mkAdd(a[0], c64(4)), 4), ow = loadG(s, mkAdd(a[0], c64(8)), 4);
      storeG(s, mkAdd(a[0], c64(4)), 4, mkIte(ec, cnt, mkAdd(cnt, c32(1)))); storeG(s, mkAdd(a[0], c64(8)), 4, mkIte(ec, ow, tidE(s)));
      hbAcquire(s, s.tid, a[0], T());
      r.e = mkIte(ec, c32(EDEADLK_), c32(0));
    }
    return NEXT; }, mEn);
  auto mTry = [this](State& s, E m, E fr) {
    E cnt = loadG(s, mkAdd(m, c64(4)), 4), ow = loadG(s, mkAdd(m, c64(8)), 4);
    storeG(s, mkAdd(m, c64(4)), 4, mkIte(fr, mkAdd(cnt, c32(1)), cnt));
    storeG(s, mkAdd(m, c64(8)), 4, mkIte(fr, tidE(s), ow));
    hbAcquire(s, s.tid, m, fr);
  };
  sync("pthread_mutex_trylock", [=, this](State& s, CallBase*, A& a, Val& r) { E fr = mutexFree(s, a[0]); mTry(s, a[0], fr); r.e = okRet(fr, EBUSY_); return NEXT; }, nullptr);
  // With only blocking acquisitions a critical section up to the next synchronisation point is atomic; an attempt
  // that does not wait can observe the mutex held in between, so then the release is a scheduling point too.
  for (auto n : {"pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_mutex_clocklock"}) if (Function* f = M.getFunction(n); f && !f->use_empty()) unlockSync = true;
  Model unlock = [this](State& s, CallBase*, A& a, Val& r) {
    E kind = loadG(s, mkAdd(a[0], c64(16)), 4), ow = loadG(s, mkAdd(a[0], c64(8)), 4);
    E perm = mkAnd(mkNot(mkEq(mkBin(K::BAND, kind, c32(3)), c32(0))), mkNot(mkEq(ow, tidE(s))));
    (void)perm;
    mutexRelease(s, a[0]); r.e = c32(0); return NEXT; };
  if (unlockSync) sync("pthread_mutex_unlock", unlock, nullptr); else def("pthread_mutex_unlock", unlock);
  auto timedLock = [=, this](int clk) {
    return [=, this](State& s, CallBase*, A& a, Val& r) {
      E bad; E ts = a.size() == 3 ? a[2] : a[1];
      bool sys = a.size() == 2 || (isC(a[1]) && a[1]->c == 0); (void)clk;
      E dl = tsToNs(s, ts, &bad, sys);
      E fr = mutexFree(s, a[0]);
      if (mode == SEQ) { E fin = mkOr(fr, mkSle(dl, clockMax())); blocked(s, fin, "timed lock"); }
      mTry(s, a[0], fr);
      event(s, "deadline", {dl});
      r.e = mkIte(fr, c32(0), mkIte(bad, c32(EINVAL_), c32(ETIMEDOUT_)));
      return NEXT; };
  };
  auto timedEn = [=, this](State& s, CallBase*, A& a, bool pot) {
    E bad; E ts = a.size() == 3 ? a[2] : a[1];
    bool sys = a.size() == 2 || (isC(a[1]) && a[1]->c == 0);
    E dl = tsToNs(s, ts, &bad, sys);
    return mkOr(mkOr(mutexFree(s, a[0]), bad), mkSle(dl, pot ? clockMax() : nowVar(s))); };
  sync("pthread_mutex_timedlock", timedLock(0), timedEn);
  sync("pthread_mutex_clocklock", timedLock(1), timedEn);
  def("pthread_mutex_init", [this](State& s, CallBase*, A& a, Val& r) {
    for (int i = 0; i < 40; i += 8) storeG(s, mkAdd(a[0], c64(i)), 8, c64(0));
    if (!(isC(a[1]) && a[1]->c == 0)) storeG(s, mkAdd(a[0], c64(16)), 4, loadInt(s, a[1], 4));
    r.e = c32(0); return NEXT; });
  def("pthread_mutex_destroy", [this](State& s, CallBase*, A& a, Val& r) {
    E ow = loadG(s, mkAdd(a[0], c64(8)), 4);
    E z = mkEq(ow, c32(0)); if (!isT(z)) violate(s, mkNot(z), "destroy", "pthread mutex destroyed while locked");
    r.e = c32(0); return NEXT; });
  def("pthread_mutexattr_init", [this](State& s, CallBase*, A& a, Val& r) { storeInt(s, a[0], 4, c32(0)); r.e = c32(0); return NEXT; });
  def("pthread_mutexattr_settype", [this](State& s, CallBase*, A& a, Val& r) { storeInt(s, a[0], 4, a[1]); r.e = c32(0); return NEXT; });
  def("pthread_mutexattr_destroy", zero);
  // ------------------------------------------------------------ condition variables
  auto cvdtor = [this](State& s, CallBase*, A& a, Val& r) {
    for (int t = 0; t < nthreads; t++) { E w = mkAnd(mkEq(loadG(s, c64(waitCell(t)), 8), a[0]), mkEq(loadG(s, c64(waitCell(t) + 8), 8), c64(1))); if (!isF(mkAnd(w, s.guard))) violate(s, w, "destroy", "condition variable destroyed while a thread is waiting on it"); }
    r.e = c32(0); return NEXT; };
  auto cvctor = [this](State& s, CallBase*, A& a, Val& r) { for (int i = 0; i < 48; i += 8) storeG(s, mkAdd(a[0], c64(i)), 8, c64(0)); r.e = c32(0); return NEXT; };
  def("_ZNSt18condition_variableC1Ev", cvctor); def("_ZNSt18condition_variableC2Ev", cvctor);
  def("pthread_cond_init", cvctor);
  def("_ZNSt18condition_variableD1Ev", cvdtor); def("_ZNSt18condition_variableD2Ev", cvdtor); def("pthread_cond_destroy", cvdtor);
  auto note = [this](bool all) { return [=, this](State& s, CallBase*, A& a, Val& r) { notify(s, a[0], all); r.e = c32(0); return NEXT; }; };
  def("_ZNSt18condition_variable10notify_oneEv", note(false)); def("_ZNSt18condition_variable10notify_allEv", note(true));
  def("pthread_cond_signal", note(false)); def("pthread_cond_broadcast", note(true));
  models["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = ModelDef{[this](State& s, CallBase* cb, A& a, Val& r) { E m = loadInt(s, a[1], 8); return cvWait(s, cb, a[0], m, nullptr, false, r); }, false,
    [this](State& s, CallBase*, A& a, bool p) { return cvEnabled(s, loadG(s, a[1], 8), p); }};
  models["pthread_cond_wait"] = ModelDef{[this](State& s, CallBase* cb, A& a, Val& r) { return cvWait(s, cb, a[0], a[1], nullptr, false, r); }, false,
    [this](State& s, CallBase*, A& a, bool p) { return cvEnabled(s, a[1], p); }};
  auto ctw = [this](State& s, CallBase* cb, A& a, Val& r) -> CallRes {
    E ts = a.size() == 4 ? a[3] : a[2]; bool sys = a.size() == 3 || (isC(a[2]) && a[2]->c == 0);
    E bad; E dl = s.frames.back().phase ? loadG(s, c64(waitCell(s.tid) + 16), 8) : tsToNs(s, ts, &bad, sys);
    return cvWait(s, cb, a[0], a[1], dl, true, r); };
  auto ctwEn = [this](State& s, CallBase*, A& a, bool p) { return cvEnabled(s, a[1], p); };
  models["pthread_cond_timedwait"] = ModelDef{ctw, false, ctwEn};
  models["pthread_cond_clockwait"] = ModelDef{ctw, false, ctwEn};
  // ------------------------------------------------------------ rwlock: writer@0 (tid+1), readers@4
  auto rwW = [this](State& s, E p) { return loadG(s, p, 4); };
  auto rwR = [this](State& s, E p) { return loadG(s, mkAdd(p, c64(4)), 4); };
  auto rdFree = [=](State& s, E p) { return mkEq(rwW(s, p), c32(0)); };
  auto wrFree = [=](State& s, E p) { return mkAnd(mkEq(rwW(s, p), c32(0)), mkEq(rwR(s, p), c32(0))); };
  auto rwOp = [=, this](bool wr, int kind) { // 0 lock 1 try 2 timed
    return [=, this](State& s, CallBase*, A& a, Val& r) {
      E fr = wr ? wrFree(s, a[0]) : rdFree(s, a[0]);
      if (kind == 0) { blocked(s, fr, "rwlock"); if (isF(s.guard)) return KILLED; if (mode != SEQ) fr = T(); }
      E bad = F();
      if (kind == 2) { bool sys = a.size() == 2 || (isC(a[1]) && a[1]->c == 0); E dl = tsToNs(s, a.back(), &bad, sys); event(s, "deadline", {dl}); }
      if (wr) storeG(s, a[0], 4, mkIte(fr, tidE(s), rwW(s, a[0])));
      else storeG(s, mkAdd(a[0], c64(4)), 4, mkIte(fr, mkAdd(rwR(s, a[0]), c32(1)), rwR(s, a[0])));
      hbAcquire(s, s.tid, a[0], fr);
      if (wr) hbAcquire(s, s.tid, mkAdd(a[0], c64(4)), fr);
      r.e = kind == 0 ? c32(0) : kind == 1 ? okRet(fr, EBUSY_) : mkIte(fr, c32(0), mkIte(bad, c32(EINVAL_), c32(ETIMEDOUT_)));
      return NEXT; };
  };
  auto rwEn = [=, this](bool wr, int kind) { return [=, this](State& s, CallBase*, A& a, bool pot) {
    E fr = wr ? wrFree(s, a[0]) : rdFree(s, a[0]);
    if (kind == 2) { E bad; bool sys = a.size() == 2 || (isC(a[1]) && a[1]->c == 0); E dl = tsToNs(s, a.back(), &bad, sys); fr = mkOr(mkOr(fr, bad), mkSle(dl, pot ? clockMax() : nowVar(s))); }
    return fr; }; };
  sync("pthread_rwlock_wrlock", rwOp(true, 0), rwEn(true, 0)); sync("pthread_rwlock_rdlock", rwOp(false, 0), rwEn(false, 0));
  sync("pthread_rwlock_trywrlock", rwOp(true, 1), nullptr); sync("pthread_rwlock_tryrdlock", rwOp(false, 1), nullptr);
  sync("pthread_rwlock_timedwrlock", rwOp(true, 2), rwEn(true, 2)); sync("pthread_rwlock_timedrdlock", rwOp(false, 2), rwEn(false, 2));
  sync("pthread_rwlock_clockwrlock", rwOp(true, 2), rwEn(true, 2)); sync("pthread_rwlock_clockrdlock", rwOp(false, 2), rwEn(false, 2));
  def("pthread_rwlock_unlock", [=, this](State& s, CallBase*, A& a, Val& r) {
    E w = rwW(s, a[0]), rd = rwR(s, a[0]);
    E mine = mkEq(w, tidE(s)), hasR = mkUlt(c32(0), rd);
    E bad = mkAnd(mkNot(mine), mkNot(hasR));
    if (!isF(bad)) violate(s, bad, "unlock", "rwlock unlocked while not held");
    hbRelease(s, s.tid, a[0], mine); hbRelease(s, s.tid, mkAdd(a[0], c64(4)), mkNot(mine), true);
    storeG(s, a[0], 4, mkIte(mine, c32(0), w)); storeG(s, mkAdd(a[0], c64(4)), 4, mkIte(mine, rd, mkSub(rd, c32(1))));
    r.e = c32(0); return NEXT; });
  def("pthread_rwlock_init", [this](State& s, CallBase*, A& a, Val& r) { for (int i = 0; i < 56; i += 8) storeG(s, mkAdd(a[0], c64(i)), 8, c64(0)); r.e = c32(0); return NEXT; });
  def("pthread_rwlock_destroy", [=, this](State& s, CallBase*, A& a, Val& r) { E z = wrFree(s, a[0]); if (!isT(z)) violate(s, mkNot(z), "destroy", "rwlock destroyed while held"); r.e = c32(0); return NEXT; });
  // ------------------------------------------------------------ spinlock: value 0 free else tid+1
  def("pthread_spin_init", [this](State& s, CallBase*, A& a, Val& r) { storeG(s, a[0], 4, c32(0)); r.e = c32(0); return NEXT; });
  def("pthread_spin_destroy", zero);
  sync("pthread_spin_lock", [=, this](State& s, CallBase*, A& a, Val& r) { E fr = mkEq(loadG(s, a[0], 4), c32(0)); blocked(s, fr, "spin lock"); if (isF(s.guard)) return KILLED; storeG(s, a[0], 4, tidE(s)); hbAcquire(s, s.tid, a[0], T()); r.e = c32(0); return NEXT; },
    [this](State& s, CallBase*, A& a, bool) { return mkEq(loadG(s, a[0], 4), c32(0)); });
  sync("pthread_spin_trylock", [this](State& s, CallBase*, A& a, Val& r) { E v = loadG(s, a[0], 4), fr = mkEq(v, c32(0)); storeG(s, a[0], 4, mkIte(fr, tidE(s), v)); hbAcquire(s, s.tid, a[0], fr); r.e = okRet(fr, EBUSY_); return NEXT; }, nullptr);
  def("pthread_spin_unlock", [this](State& s, CallBase*, A& a, Val& r) { E v = loadG(s, a[0], 4); E ok = mkEq(v, tidE(s)); if (!isT(ok)) violate(s, mkNot(ok), "unlock", "spin lock unlocked by a thread that does not own it"); hbRelease(s, s.tid, a[0], T()); storeG(s, a[0], 4, c32(0)); r.e = c32(0); return NEXT; });
  // ------------------------------------------------------------ POSIX semaphore: value@0 (32 bit)
  auto errnoSet = [this](State& s, E cond, E v) { E p = c64(waitCell(s.tid) + 32); storeG(s, p, 4, mkIte(cond, v, loadG(s, p, 4))); };
  def("__errno_location", [this](State& s, CallBase*, A&, Val& r) { r.e = c64(waitCell(s.tid) + 32); return NEXT; });
  def("sem_init", [=, this](State& s, CallBase*, A& a, Val& r) {
    for (int i = 0; i < 32; i += 8) storeG(s, mkAdd(a[0], c64(i)), 8, c64(0));
    E bad = mkUlt(c32(0x7fffffff), a[2]);
    storeG(s, a[0], 4, mkIte(bad, c32(0), a[2])); errnoSet(s, bad, c32(EINVAL_));
    r.e = mkIte(bad, c32(0xffffffff), c32(0)); return NEXT; });
  def("sem_destroy", zero);
  sync("sem_post", [=, this](State& s, CallBase*, A& a, Val& r) {
    E v = loadG(s, a[0], 4), of = mkEq(v, c32(0x7fffffff));
    hbRelease(s, s.tid, a[0], T(), true);
    storeG(s, a[0], 4, mkIte(of, v, mkAdd(v, c32(1)))); errnoSet(s, of, c32(EOVERFLOW_));
    r.e = mkIte(of, c32(0xffffffff), c32(0)); return NEXT; }, nullptr);
  auto semPos = [this](State& s, E p) { return mkNot(mkEq(loadG(s, p, 4), c32(0))); };
  auto eintrCell = [this]() { return c64(spurCell() + 16); };
  auto semTake = [=, this](State& s, E p, E ok) { E v = loadG(s, p, 4); storeG(s, p, 4, mkIte(ok, mkSub(v, c32(1)), v)); hbAcquire(s, s.tid, p, ok); };
  auto semIntr = [=, this](State& s) -> E { // signal delivery, bounded
    if (!opt.eintr || mode != CONC || inTail) return F();
    E cnt = loadG(s, eintrCell(), 8); E b = mkAnd(fresh("eintr", 1), mkUlt(cnt, c64(opt.eintr)));
    return b; };
  auto semOp = [=, this](int kind) { return [=, this](State& s, CallBase*, A& a, Val& r) {
      E pos = semPos(s, a[0]); E intr = F(), err = c32(EAGAIN_);
      if (kind == 0) { blocked(s, pos, "sem_wait"); if (isF(s.guard)) return KILLED; intr = mkAnd(semIntr(s), mkNot(pos)); if (mode != SEQ) { kill(s, mkAnd(mkNot(pos), mkNot(intr))); } err = c32(EINTR_); }
      if (kind == 2) {
        E bad; bool sys = a.size() == 2 || (isC(a[1]) && a[1]->c == 0); E dl = tsToNs(s, a.back(), &bad, sys);
        event(s, "deadline", {dl});
        E exp = mkOr(bad, mkSle(dl, nowVar(s)));
        intr = mkAnd(mkAnd(semIntr(s), mkNot(pos)), mkNot(exp));
        if (mode != SEQ) kill(s, mkAnd(mkAnd(mkNot(pos), mkNot(exp)), mkNot(intr)));
        err = mkIte(intr, c32(EINTR_), mkIte(bad, c32(EINVAL_), c32(ETIMEDOUT_)));
      }
      if (!isF(intr)) { E cnt = loadG(s, eintrCell(), 8); storeG(s, eintrCell(), 8, mkIte(intr, mkAdd(cnt, c64(1)), cnt)); event(s, "eintr", {mkZext(intr, 32)}); }
      semTake(s, a[0], pos);
      errnoSet(s, mkNot(pos), err);
      r.e = mkIte(pos, c32(0), c32(0xffffffff)); return NEXT; }; };
  auto semEn = [=, this](int kind) { return [=, this](State& s, CallBase*, A& a, bool pot) {
      E e = semPos(s, a[0]);
      if (kind == 2) { E bad; bool sys = a.size() == 2 || (isC(a[1]) && a[1]->c == 0); E dl = tsToNs(s, a.back(), &bad, sys); e = mkOr(mkOr(e, bad), mkSle(dl, pot ? clockMax() : nowVar(s))); }
      if (!pot && opt.eintr && !inTail) e = mkOr(e, mkUlt(loadG(s, eintrCell(), 8), c64(opt.eintr)));
      return e; }; };
  sync("sem_wait", semOp(0), semEn(0)); sync("sem_trywait", semOp(1), nullptr);
  sync("sem_timedwait", semOp(2), semEn(2)); sync("sem_clockwait", semOp(2), semEn(2));
  def("sem_getvalue", [this](State& s, CallBase*, A& a, Val& r) { storeInt(s, a[1], 4, loadG(s, a[0], 4)); r.e = c32(0); return NEXT; });
  // ------------------------------------------------------------ time, threads
  auto steady = [this](State& s, CallBase*, A&, Val& r) { r.e = nowVar(s); return NEXT; };
  def("_ZNSt6chrono3_V212steady_clock3nowEv", steady);
  def("_ZNSt6chrono3_V212system_clock3nowEv", [this](State& s, CallBase*, A&, Val& r) { r.e = mkAdd(nowVar(s), c64(SYSOFF)); return NEXT; });
  def("clock_gettime", [this](State& s, CallBase*, A& a, Val& r) {
    E n = nowVar(s); if (isC(a[0]) && a[0]->c == 0) n = mkAdd(n, c64(SYSOFF));
    E q = mkBin(K::SDIV, n, c64(1000000000)); storeInt(s, a[1], 8, q); storeInt(s, mkAdd(a[1], c64(8)), 8, mkSub(n, mkMul(q, c64(1000000000)))); r.e = c32(0); return NEXT; });
  def("pthread_self", [this](State& s, CallBase*, A&, Val& r) { r.e = mkAdd(c64(0x600000000000ull), mkMul(mkZext(tidE(s), 64), c64(0x1000))); return NEXT; });
  if (Function* f = M.getFunction("sched_yield"); !f || f->isDeclaration()) sync("sched_yield", zero, nullptr);
  sync("pthread_yield", zero, nullptr); sync("nanosleep", zero, nullptr); sync("usleep", zero, nullptr);
  def("__gthread_active_p", [](State&, CallBase*, A&, Val& r) { r.e = c32(1); return NEXT; });
  def("_ZL18__gthread_active_pv", [](State&, CallBase*, A&, Val& r) { r.e = c32(1); return NEXT; });
  def("__pthread_key_create", zero);
  // ------------------------------------------------------------ C++ runtime
  auto alloc = [this](State& s, CallBase* cb, A& a, Val& r) {
    if (!isC(a[0])) {
      std::vector<std::pair<u128, E>> lv;
      if (!leaves(a[0], lv, 32)) { unsupported(s, "allocation of symbolic size"); return KILLED; }
      // one object per feasible size
      E res = nullptr; State base = s;
      for (auto& l : lv) { if (isF(mkAnd(s.guard, l.second))) continue; u64 p = allocHeap(s, (u64)l.first, cb); int i = s.mem.find(p); s.mem.wr(i).alive = l.second; res = res ? mkIte(l.second, c64(p), res) : c64(p); }
      r.e = res ? res : c64(0); return NEXT;
    }
    r.e = c64(allocHeap(s, (u64)a[0]->c, cb)); return NEXT; };
  for (auto n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) def(n, alloc);
  def("calloc", [this](State& s, CallBase* cb, A& a, Val& r) { r.e = c64(allocHeap(s, (u64)(a[0]->c * a[1]->c), cb, 1)); return NEXT; });
  auto fr = [this](State& s, CallBase*, A& a, Val&) { freeHeap(s, a[0]); return isF(s.guard) ? KILLED : NEXT; };
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) def(n, fr);
  auto copy = [this](State& s, CallBase*, A& a, Val& r) {
    std::vector<std::pair<u128, E>> lv;
    if (!leaves(a[2], lv, 64)) { unsupported(s, "memcpy of symbolic size"); return KILLED; }
    r.e = a[0];
    if (lv.size() == 1) { if (lv[0].first) copyMem(s, a[0], a[1], (u64)lv[0].first); return NEXT; }
    Mem m0 = s.mem; Mem acc = s.mem; E g0 = s.guard; bool first = true;
    for (auto& l : lv) {
      if (isF(mkAnd(g0, l.second))) continue;
      State t = s; t.mem = m0; t.guard = mkAnd(g0, l.second);
      if (l.first) copyMem(t, a[0], a[1], (u64)l.first);
      if (first) { acc = t.mem; first = false; } else { Mem o; mergeMem(l.second, t.mem, acc, o); acc = o; }
    }
    s.mem = acc;
    return NEXT; };
  for (auto n : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64"}) def(n, copy);
  auto mset = [this](State& s, CallBase*, A& a, Val& r) {
    if (!isC(a[2])) { unsupported(s, "memset of symbolic size"); return KILLED; }
    u64 n = (u64)a[2]->c; E b = mkExtract(a[1], 0, 8);
    E w8 = isC(b) ? c64((u64)b->c * 0x0101010101010101ull) : nullptr;
    u64 p = 0;
    if (w8) for (; p + 8 <= n; p += 8) storeInt(s, mkAdd(a[0], c64(p)), 8, w8);
    for (; p < n; p++) storeInt(s, mkAdd(a[0], c64(p)), 1, b);
    r.e = a[0]; return NEXT; };
  for (auto n : {"memset", "llvm.memset.p0.i64", "llvm.memset.inline.p0.i64"}) def(n, mset);
  auto mcmp = [this](State& s, CallBase*, A& a, Val& r) {
    if (!isC(a[2])) { unsupported(s, "memcmp of symbolic size"); return KILLED; }
    E x = c32(0);
    for (int i = (int)a[2]->c - 1; i >= 0; i--) { E p = loadInt(s, mkAdd(a[0], c64(i)), 1), q = loadInt(s, mkAdd(a[1], c64(i)), 1); x = mkIte(mkEq(p, q), x, mkIte(mkUlt(p, q), c32(0xffffffff), c32(1))); }
    r.e = x; return NEXT; };
  def("memcmp", mcmp); def("bcmp", mcmp);
  def("strlen", [this](State& s, CallBase*, A& a, Val& r) {
    if (!isC(a[0])) { unsupported(s, "strlen of symbolic pointer"); return KILLED; }
    for (u64 i = 0;; i++) { E c = loadInt(s, mkAdd(a[0], c64(i)), 1); if (!isC(c)) { unsupported(s, "strlen of symbolic data"); return KILLED; } if (c->c == 0) { r.e = c64(i); return NEXT; } } });
  def("__cxa_allocate_exception", [this](State& s, CallBase* cb, A& a, Val& r) { u64 p = allocHeap(s, (u64)a[0]->c + 32, cb, 1); s.mem.wr(s.mem.find(p)).ghost = true; r.e = c64(p + 32); return NEXT; });
  def("__cxa_free_exception", nop);
  def("__cxa_throw", [this](State& s, CallBase*, A& a, Val&) { storeG(s, mkSub(a[0], c64(32)), 8, a[1]); return unwind(s, a[0]) ? UNWIND : KILLED; });
  def("__cxa_rethrow", [this](State& s, CallBase*, A&, Val&) { E x = loadG(s, c64(waitCell(s.tid) + 40), 8); return unwind(s, x) ? UNWIND : KILLED; });
  def("__cxa_begin_catch", [this](State& s, CallBase*, A& a, Val& r) { storeG(s, c64(waitCell(s.tid) + 40), 8, a[0]); r.e = a[0]; return NEXT; });
  def("__cxa_get_exception_ptr", self);
  def("__cxa_end_catch", nop);
  def("_ZSt18uncaught_exceptionv", zero); def("_ZSt19uncaught_exceptionsv", zero);
  def("llvm.eh.typeid.for", [this](State&, CallBase* cb, A&, Val& r) { r.e = c32(typeId(cb->getArgOperand(0)->stripPointerCasts())); return NEXT; });
  def("llvm.eh.typeid.for.p0", [this](State&, CallBase* cb, A&, Val& r) { r.e = c32(typeId(cb->getArgOperand(0)->stripPointerCasts())); return NEXT; });
  auto term = [this](State& s, CallBase*, A&, Val&) { violate(s, T(), "terminate", "std::terminate called"); kill(s, T()); return KILLED; };
  def("_ZSt9terminatev", term); def("__clang_call_terminate", term);
  def("__cxa_pure_virtual", term);
  def("abort", [this](State& s, CallBase* cb, A&, Val&) {
    if (Function* f = M.getFunction("__vx_on_abort"); f && !f->isDeclaration()) {
      event(s, "abort", {});
      // run the hook, then the path ends (see __vx_path_end)
      std::vector<Val> no; pushFrame(s, f, no, chainIds.emplace(std::make_pair(s.frames.back().chain, (const Value*)cb), chainIds.size() + 2).first->second);
      return ENTERED;
    }
    violate(s, T(), "abort", "abort called"); kill(s, T()); return KILLED; });
  def("__vx_unsupported", [this](State& s, CallBase*, A& a, Val&) { unsupported(s, "bounded container is full"); return KILLED; });
  def("__vx_path_end", [this](State& s, CallBase*, A&, Val&) { event(s, "end", {}); done(s); return KILLED; });
  def("__assert_fail", [this](State& s, CallBase* cb, A&, Val&) {
    std::string msg = "assert";
    if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (gv->hasInitializer()) if (auto* d = dyn_cast<ConstantDataSequential>(gv->getInitializer())) msg = d->getAsCString().str();
    violate(s, T(), "internal-assert", "assert(" + msg + ") failed"); kill(s, T()); return KILLED; });
  def("_ZSt20__throw_system_errori", [this](State& s, CallBase* cb, A& a, Val&) { return throwSystem(s, cb, a[0]) ? UNWIND : KILLED; });
  auto sysctor = [this](State& s, CallBase*, A& a, Val&) {
    storeG(s, a[0], 8, c64(gvAddrByName("_ZTVSt12system_error", 64) + 16));
    storeG(s, mkAdd(a[0], c64(16)), 4, a[1]->w > 32 ? mkExtract(a[1], 0, 32) : a[1]); storeG(s, mkAdd(a[0], c64(24)), 8, a[2]); return NEXT; };
  pre("_ZNSt12system_errorC1ESt10error_code", sysctor); pre("_ZNSt12system_errorC2ESt10error_code", sysctor);
  pre("_ZNSt12system_errorD", nop);
  auto excctor = [this](State& s, CallBase*, A& a, Val& r) { storeG(s, a[0], 8, c64(gvAddrByName("_ZTVSt9exception", 64) + 16)); r.e = a[0]; return NEXT; };
  for (auto n : {"_ZNSt13runtime_errorC", "_ZNSt11logic_errorC", "_ZNSt16invalid_argumentC", "_ZNSt12out_of_rangeC", "_ZNSt12length_errorC", "_ZNSt9exceptionC"}) pre(n, excctor);
  for (auto n : {"_ZNSt13runtime_errorD", "_ZNSt11logic_errorD", "_ZNSt16invalid_argumentD", "_ZNSt12out_of_rangeD", "_ZNSt12length_errorD", "_ZNSt9exceptionD"}) pre(n, nop);
  auto gencat = [this](State&, CallBase*, A&, Val& r) { r.e = c64(gvAddrByName("_vx_generic_category")); return NEXT; };
  def("_ZNSt3_V216generic_categoryEv", gencat); def("_ZNSt3_V215system_categoryEv", [this](State&, CallBase*, A&, Val& r) { r.e = c64(gvAddrByName("_vx_system_category")); return NEXT; });
  auto lib = [this](const char* what) { std::string w = what; return [=, this](State& s, CallBase*, A&, Val&) { violate(s, T(), "library", w + " raised inside the library"); kill(s, T()); return KILLED; }; };
  def("_ZSt20__throw_length_errorPKc", lib("std::length_error")); def("_ZSt17__throw_bad_allocv", lib("std::bad_alloc")); def("_ZSt28__throw_bad_array_new_lengthv", lib("bad_array_new_length"));
  def("_ZSt24__throw_out_of_range_fmtPKcz", lib("std::out_of_range")); def("_ZSt20__throw_out_of_rangePKc", lib("std::out_of_range")); def("_ZSt25__throw_bad_function_callv", lib("bad_function_call"));
  def("_ZSt21__glibcxx_assert_failPKciS0_S0_", [this](State& s, CallBase*, A&, Val&) { violate(s, T(), "library", "libstdc++ assertion failed"); kill(s, T()); return KILLED; });
  def("__cxa_atexit", zero);
  def("__cxa_thread_atexit", zero);
  def("__cxa_guard_acquire", [this](State& s, CallBase*, A& a, Val& r) { E d = loadG(s, a[0], 1); r.e = mkZext(mkEq(d, mkConst(0, 8)), 32); hbAcquire(s, s.tid, a[0], T()); return NEXT; });
  def("__cxa_guard_release", [this](State& s, CallBase*, A& a, Val&) { storeG(s, a[0], 1, mkConst(1, 8)); hbRelease(s, s.tid, a[0], T(), true); return NEXT; });
  def("__cxa_guard_abort", nop);
  // hashing policy: a single bucket keeps the table concrete
  def("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", [](State&, CallBase*, A&, Val& r) { r.e = c64(1); return NEXT; });
  def("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", [](State&, CallBase* cb, A&, Val& r) {
    (void)cb; r.agg = std::make_shared<std::vector<Val>>(); Val a, b; a.e = mkConst(0, 8); b.e = c64(0); r.agg->push_back(a); r.agg->push_back(b); return NEXT; });
  def("_ZSt11_Hash_bytesPKvmm", [this](State& s, CallBase*, A& a, Val& r) { r.e = isC(a[1]) && a[1]->c == 8 ? loadInt(s, a[0], 8) : c64(7); return NEXT; });
  // streams: no observable effect
  pre("_ZStls", self); pre("_ZNSolsE", self); pre("_ZNSo", self); pre("_ZSt4endl", self); pre("_ZSt5flush", self); pre("_ZNSt8ios_base4InitC", nop); pre("_ZNSt8ios_base4InitD", nop);
  // ------------------------------------------------------------ intrinsics
  for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch", "llvm.donothing", "llvm.x86.sse2.pause", "llvm.var.annotation"}) pre(n, nop);
  pre("llvm.expect", self); pre("llvm.launder", self); pre("llvm.strip", self); pre("llvm.ptr.annotation", self); pre("llvm.annotation", self);
  pre("llvm.is.constant", zero);
  pre("llvm.objectsize", [](State&, CallBase*, A&, Val& r) { r.e = c64(~0ull); return NEXT; });
  pre("llvm.trap", [this](State& s, CallBase*, A&, Val&) { violate(s, T(), "trap", "trap reached"); kill(s, T()); return KILLED; });
  pre("llvm.umax", [](State&, CallBase*, A& a, Val& r) { r.e = mkIte(mkUlt(a[0], a[1]), a[1], a[0]); return NEXT; });
  pre("llvm.umin", [](State&, CallBase*, A& a, Val& r) { r.e = mkIte(mkUlt(a[0], a[1]), a[0], a[1]); return NEXT; });
  pre("llvm.smax", [](State&, CallBase*, A& a, Val& r) { r.e = mkIte(mkSlt(a[0], a[1]), a[1], a[0]); return NEXT; });
  pre("llvm.smin", [](State&, CallBase*, A& a, Val& r) { r.e = mkIte(mkSlt(a[0], a[1]), a[0], a[1]); return NEXT; });
  pre("llvm.abs", [](State&, CallBase*, A& a, Val& r) { r.e = mkIte(mkSlt(a[0], mkConst(0, a[0]->w)), mkSub(mkConst(0, a[0]->w), a[0]), a[0]); return NEXT; });
  auto ov = [](int kind) { return [=](State&, CallBase*, A& a, Val& r) {
    unsigned w = a[0]->w; bool sg = kind & 1; int op = kind >> 1;
    E x = sg ? mkSext(a[0], std::min(128u, 2 * w)) : mkZext(a[0], std::min(128u, 2 * w)), y = sg ? mkSext(a[1], std::min(128u, 2 * w)) : mkZext(a[1], std::min(128u, 2 * w));
    E z = op == 0 ? mkAdd(x, y) : op == 1 ? mkSub(x, y) : mkMul(x, y);
    E lo = mkExtract(z, 0, w); E back = sg ? mkSext(lo, z->w) : mkZext(lo, z->w);
    r.agg = std::make_shared<std::vector<Val>>(); Val p, q; p.e = lo; q.e = mkNot(mkEq(back, z)); r.agg->push_back(p); r.agg->push_back(q); return NEXT; }; };
  pre("llvm.uadd.with.overflow", ov(0)); pre("llvm.sadd.with.overflow", ov(1)); pre("llvm.usub.with.overflow", ov(2)); pre("llvm.ssub.with.overflow", ov(3)); pre("llvm.umul.with.overflow", ov(4)); pre("llvm.smul.with.overflow", ov(5));
}
