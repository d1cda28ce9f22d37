// memory model, merging, happens-before bookkeeping
#include "engine.hpp"
using namespace vx;

u64 Engine::addrOf(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) if (auto* t = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts())) return addrOf(t);
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  u64 a;
  if (auto* f = dyn_cast<Function>(g)) {
    nextG = (nextG + 63) & ~63ull; a = nextG; nextG += 64;
    faddr[a] = const_cast<Function*>(f);
  } else {
    u64 sz = 256;
    auto* gv = cast<GlobalVariable>(g);
    if (gv->getValueType()->isSized()) sz = std::max<u64>(DL.getTypeAllocSize(gv->getValueType()), 1);
    nextG = (nextG + 63) & ~63ull; a = nextG; nextG += sz + 64;
    gvaddr[a] = gv;
  }
  gaddr[g] = a;
  return a;
}
u64 Engine::gvAddrByName(const std::string& n, u64 size) {
  if (auto* g = M.getNamedValue(n)) return addrOf(g);
  auto it = extraG.find(n);
  if (it != extraG.end()) return it->second;
  nextG = (nextG + 63) & ~63ull; u64 a = nextG; nextG += size + 64;
  extraG[n] = a;
  Obj* o = new Obj; o->base = a; o->size = size; o->alive = T(); o->zero = true; o->ghost = true;
  constMem[a] = ObjP(o);
  return a;
}
void Engine::initConst(const Constant* c, Obj& o, u64 off) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = ds->getElementByteSize();
    for (unsigned i = 0; i < ds->getNumElements(); i++) initConst(ds->getElementAsConstant(i), o, off + i * es);
    return;
  }
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initConst(c->getAggregateElement(i), o, off + sl->getElementOffset(i));
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL.getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) initConst(c->getAggregateElement((unsigned)i), o, off + i * es);
    return;
  }
  Val v = constVal(c);
  if (v.e) { unsigned n = msize(t); writeObj(o, off, n, mkZext(v.e, n * 8)); }
}
void Engine::initGlobals() {
  for (auto& f : M.functions()) addrOf(&f);
  for (auto& g : M.globals()) {
    u64 a = addrOf(&g);
    Obj* o = new Obj; o->base = a; o->alive = T(); o->zero = true; o->kind = OGLOBAL;
    o->size = g.getValueType()->isSized() ? std::max<u64>(DL.getTypeAllocSize(g.getValueType()), 1) : 256;
    o->ghost = g.getName().contains("ghost") || g.getName().starts_with("_ZGV");
    o->site = &g;
    if (g.hasInitializer()) initConst(g.getInitializer(), *o, 0);
    if (g.isConstant() || g.isDeclaration()) constMem[a] = ObjP(o); else initMem.add(ObjP(o));
  }
  Obj* m = new Obj; m->base = MODEL; m->size = 64 * 41; m->alive = T(); m->zero = true; m->kind = OMODEL; m->ghost = true;
  initMem.add(ObjP(m));
}
Val Engine::constVal(const Constant* c) {
  auto it = constCache.find(c);
  if (it != constCache.end()) return it->second;
  Val v;
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    u128 x = ci->getValue().getBitWidth() <= 64 ? (u128)ci->getZExtValue() : ((u128)ci->getValue().extractBitsAsZExtValue(64, 0) | ((u128)ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth() - 64), 64) << 64));
    v.e = mkConst(x, ci->getBitWidth());
  } else if (isa<ConstantPointerNull>(c)) v.e = mkConst(0, 64);
  else if (auto* g = dyn_cast<GlobalValue>(c)) v.e = mkConst(addrOf(g), 64);
  else if (auto* f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) v.e = mkConst(a.getZExtValue(), a.getBitWidth()); else v.e = mkConst(0, 128); }
  else if (t->isStructTy() || t->isArrayTy()) {
    v.agg = std::make_shared<std::vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) { Constant* el = c->getAggregateElement(i); v.agg->push_back(constVal(el)); }
  } else if (isa<UndefValue>(c)) { v.e = mkConst(0, width(t) ? width(t) : 64); }
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      auto* g = cast<GEPOperator>(ce);
      if (!g->accumulateConstantOffset(DL, off)) { fprintf(stderr, "const gep\n"); abort(); }
      v.e = mkAdd(constVal(cast<Constant>(g->getPointerOperand())).e, mkConst(off.getZExtValue(), 64));
    } else if (ce->isCast()) {
      Val x = constVal(ce->getOperand(0));
      unsigned w = width(t);
      v.e = x.e->w > w ? mkExtract(x.e, 0, w) : mkZext(x.e, w);
    } else if (ce->getOpcode() == Instruction::Sub) v.e = mkSub(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
    else if (ce->getOpcode() == Instruction::Add) v.e = mkAdd(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e);
    else if (ce->getOpcode() == Instruction::ICmp) {
      E a = constVal(ce->getOperand(0)).e, b = constVal(ce->getOperand(1)).e;
      v.e = ce->getPredicate() == CmpInst::ICMP_EQ ? mkEq(a, b) : mkNot(mkEq(a, b));
    }
    else { fprintf(stderr, "constexpr opcode %s\n", ce->getOpcodeName()); abort(); }
  } else { fprintf(stderr, "const kind\n"); c->print(errs()); abort(); }
  constCache[c] = v;
  return v;
}

// ---------------------------------------------------------------- objects
E Engine::readObj(Obj& o, u64 off, unsigned sz) {
  auto& cs = o.cells;
  auto it = std::lower_bound(cs.begin(), cs.end(), off, [](const Cell& c, u64 x) { return c.off + c.sz <= x; });
  if (it != cs.end() && it->off == off && it->sz == sz) return it->v;
  // compose
  E r = nullptr; u64 p = off, end = off + sz;
  auto addHi = [&](E x) { r = r ? mkConcat(x, r) : x; };
  while (p < end) {
    if (it != cs.end() && it->off <= p) {
      u64 ce = it->off + it->sz, e = std::min(ce, end);
      addHi(mkExtract(it->v, (unsigned)(p - it->off) * 8, (unsigned)(e - p) * 8));
      p = e; ++it;
    } else {
      u64 e = it != cs.end() ? std::min<u64>(it->off, end) : end;
      if (o.zero) addHi(mkConst(0, (unsigned)(e - p) * 8));
      else for (u64 q = p; q < e; q++) { char b[64]; snprintf(b, 64, "u!%llx!%llu", (unsigned long long)o.base, (unsigned long long)q); addHi(mkVar(b, 8)); }
      p = e;
    }
  }
  return r;
}
void Engine::writeObj(Obj& o, u64 off, unsigned sz, E v) {
  auto& cs = o.cells;
  auto it = std::lower_bound(cs.begin(), cs.end(), off, [](const Cell& c, u64 x) { return c.off + c.sz <= x; });
  if (it != cs.end() && it->off == off && it->sz == sz) { it->v = v; return; }
  u64 end = off + sz;
  std::vector<Cell> ins;
  auto first = it;
  Cell tail{0, 0, nullptr};
  while (it != cs.end() && it->off < end) {
    if (it->off < off) ins.push_back({it->off, (uint32_t)(off - it->off), mkExtract(it->v, 0, (unsigned)(off - it->off) * 8)});
    if (it->off + it->sz > end) { unsigned n = (unsigned)(it->off + it->sz - end); tail = {(uint32_t)end, n, mkExtract(it->v, (it->sz - n) * 8, n * 8)}; }
    ++it;
  }
  // wide values are stored in pieces of at most 16 bytes
  ins.push_back({(uint32_t)off, sz, v});
  if (tail.v) ins.push_back(tail);
  size_t pos = first - cs.begin();
  cs.erase(first, it);
  cs.insert(cs.begin() + pos, ins.begin(), ins.end());
}
ObjP Engine::mergeObj(E c, const ObjP& a, const ObjP& b) {
  if (a == b) return a;
  if (isT(c)) return a;
  if (isF(c)) return b;
  Obj* n = new Obj(*a); n->rc = 0;
  n->alive = mkIte(c, a->alive, b->alive);
  bool same = a->cells.size() == b->cells.size();
  if (same) for (size_t i = 0; i < a->cells.size(); i++) if (a->cells[i].off != b->cells[i].off || a->cells[i].sz != b->cells[i].sz) { same = false; break; }
  if (same) { for (size_t i = 0; i < a->cells.size(); i++) n->cells[i].v = mkIte(c, a->cells[i].v, b->cells[i].v); return ObjP(n); }
  std::set<uint32_t> bd;
  for (auto* o : {a.p, b.p}) for (auto& x : o->cells) { bd.insert(x.off); bd.insert(x.off + x.sz); }
  auto covered = [](Obj& o, uint32_t off) { for (auto& x : o.cells) if (x.off <= off && off < x.off + x.sz) return true; return false; };
  n->cells.clear();
  for (auto it = bd.begin(); it != bd.end(); ++it) {
    auto nx = std::next(it); if (nx == bd.end()) break;
    uint32_t off = *it, sz = *nx - *it;
    bool ca = covered(*a, off), cb = covered(*b, off);
    if (!ca && !cb) continue;
    E v;
    if (ca && cb) v = mkIte(c, readObj(*a, off, sz), readObj(*b, off, sz));
    else if (a->zero) v = mkIte(c, ca ? readObj(*a, off, sz) : mkConst(0, sz * 8), cb ? readObj(*b, off, sz) : mkConst(0, sz * 8));
    else v = ca ? readObj(*a, off, sz) : readObj(*b, off, sz);
    n->cells.push_back({off, sz, v});
  }
  return ObjP(n);
}
static void addMerged(Mem& out, u64 base, ObjP p) { if (!isF(p->alive)) out.o.push_back({base, p}); }
void Engine::mergeMem(E c, Mem& a, const Mem& b, Mem& out) {
  out.o.clear(); out.o.reserve(std::max(a.o.size(), b.o.size()) + 4);
  size_t i = 0, j = 0; E nc = mkNot(c);
  while (i < a.o.size() || j < b.o.size()) {
    if (j >= b.o.size() || (i < a.o.size() && a.o[i].first < b.o[j].first)) {
      Obj* n = new Obj(*a.o[i].second); n->rc = 0; n->alive = mkAnd(c, n->alive); addMerged(out, a.o[i].first, ObjP(n)); i++;
    } else if (i >= a.o.size() || b.o[j].first < a.o[i].first) {
      Obj* n = new Obj(*b.o[j].second); n->rc = 0; n->alive = mkAnd(nc, n->alive); addMerged(out, b.o[j].first, ObjP(n)); j++;
    } else { addMerged(out, a.o[i].first, mergeObj(c, a.o[i].second, b.o[j].second)); i++; j++; }
  }
  if (opt.hb) out.hb = mergeHB(c, a.hb, b.hb);
}
Val Engine::mergeVal(E c, const Val& a, const Val& b) {
  if (!a.e && !a.agg) return b;
  if (!b.e && !b.agg) return a;
  Val r;
  if (a.agg) {
    if (a.agg == b.agg) return a;
    r.agg = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(mergeVal(c, (*a.agg)[i], (*b.agg)[i]));
    return r;
  }
  if (a.e->w != b.e->w) { return a; }
  r.e = mkIte(c, a.e, b.e);
  return r;
}
void Engine::mergeState(State& a, State&& b) {
  nMerges++;
  E ca = factorCond(a.guard, b.guard), cb = factorCond(b.guard, a.guard);
  auto cost = [](E e) { return e->k == K::AND ? e->ch.size() : 1; };
  E c = cost(ca) <= cost(cb) ? ca : mkNot(cb);
  if (isT(ca)) c = mkNot(cb);   // a's guard is implied by the common part
  if (a.symTid != b.symTid || a.tid != b.tid) {   // sequential code acting for several threads
    E ta = a.symTid ? a.symTid : mkConst(a.tid, 32), tb = b.symTid ? b.symTid : mkConst(b.tid, 32);
    a.symTid = mkIte(c, ta, tb); a.tid = std::max(a.tid, b.tid);
  }
  Mem out; mergeMem(c, a.mem, b.mem, out);
  a.mem = std::move(out);
  for (size_t f = 0; f < a.frames.size(); f++) {
    auto& ra = a.frames[f].regs; auto& rb = b.frames[f].regs;
    const BitVector& lv = liveAt(a.frames[f].fi, a.frames[f].b, a.frames[f].i);
    for (size_t k = 0; k < ra.size(); k++) {
      if (!lv[k]) { ra[k] = Val(); continue; }
      ra[k] = mergeVal(c, ra[k], rb[k]);
    }
    if (a.frames[f].allocas.size() < b.frames[f].allocas.size()) a.frames[f].allocas = b.frames[f].allocas;
  }
  a.guard = mkOr(a.guard, b.guard);
}
static EvSet mergeEv(E c, const EvSet& a, const EvSet& b) {
  EvSet r;
  auto i = a.begin(); auto j = b.begin(); E nc = nullptr;
  while (i != a.end() || j != b.end()) {
    if (j == b.end() || (i != a.end() && i->first < j->first)) { E x = mkAnd(c, i->second); if (!isF(x)) r[i->first] = x; ++i; }
    else if (i == a.end() || j->first < i->first) { if (!nc) nc = mkNot(c); E x = mkAnd(nc, j->second); if (!isF(x)) r[j->first] = x; ++j; }
    else { E x = mkIte(c, i->second, j->second); if (!isF(x)) r[i->first] = x; ++i; ++j; }
  }
  return r;
}
Ref<HB> Engine::mergeHB(E c, const Ref<HB>& a, const Ref<HB>& b) {
  if (a == b) return a;
  static HB empty;
  const HB& x = a ? *a : empty; const HB& y = b ? *b : empty;
  HB* r = new HB; 
  auto mm = [&](auto& o, const auto& p, const auto& q) {
    for (auto& e : p) { auto f = q.find(e.first); o[e.first] = mergeEv(c, e.second, f == q.end() ? EvSet() : f->second); }
    for (auto& e : q) if (!p.count(e.first)) o[e.first] = mergeEv(c, EvSet(), e.second);
  };
  mm(r->thr, x.thr, y.thr); mm(r->pend, x.pend, y.pend); mm(r->rel, x.rel, y.rel); mm(r->sync, x.sync, y.sync);
  auto ma = [&](const Acc& p, const Acc& q) { Acc z; z.w = mergeEv(c, p.w, q.w); z.r = mergeEv(c, p.r, q.r); z.aw = mergeEv(c, p.aw, q.aw); z.ar = mergeEv(c, p.ar, q.ar); return z; };
  static Acc ea;
  for (auto& e : x.acc) { auto f = y.acc.find(e.first); r->acc[e.first] = ma(e.second, f == y.acc.end() ? ea : f->second); }
  for (auto& e : y.acc) if (!x.acc.count(e.first)) r->acc[e.first] = ma(ea, e.second);
  return Ref<HB>(r);
}
void Engine::mergeStepResults(const Mem& base, std::vector<State>& alts, Mem& out) {
  std::set<u64> addrs;
  for (auto& p : base.o) addrs.insert(p.first);
  for (auto& s : alts) for (auto& p : s.mem.o) addrs.insert(p.first);
  auto lookup = [](const Mem& m, u64 a) -> ObjP { int i = m.find(a); if (i >= 0 && m.o[i].first == a) return m.o[i].second; return ObjP(); };
  out.o.clear();
  for (u64 a : addrs) {
    ObjP res = lookup(base, a), b0 = res;
    std::vector<std::pair<ObjP, std::vector<E>>> groups; bool keepBase = alts.empty();
    for (auto& s : alts) {
      ObjP p = lookup(s.mem, a);
      if (p == b0) { keepBase = true; continue; }
      bool f = false;
      for (auto& g : groups) if (g.first == p) { g.second.push_back(s.guard); f = true; break; }
      if (!f) groups.push_back({p, {s.guard}});
    }
    size_t gi = 0;
    if (!keepBase && groups.size() == 1) { if (groups[0].first) out.o.push_back({a, groups[0].first}); continue; }
    if (!keepBase && groups.size() > 1 && groups[0].first) { res = groups[0].first; gi = 1; }
    for (; gi < groups.size(); gi++) {
      E g = mkOrV(groups[gi].second);
      ObjP p = groups[gi].first;
      if (!p) { if (res) { Obj* n = new Obj(*res); n->rc = 0; n->alive = mkAnd(n->alive, mkNot(g)); res = ObjP(n); } }
      else if (!res) { Obj* n = new Obj(*p); n->rc = 0; n->alive = mkAnd(n->alive, g); res = ObjP(n); }
      else res = mergeObj(g, p, res);
    }
    if (res && !isF(res->alive)) out.o.push_back({a, res});
  }
  if (opt.hb) {
    Ref<HB> h = base.hb;
    for (auto& s : alts) h = mergeHB(s.guard, s.mem.hb, h);
    out.hb = h;
  }
}

// false: g is proven impossible.  Models of earlier queries of the same step answer most calls.
static uint64_t nPool, nSat, nUns, nUnk; static double tS, tU, tK;
struct PrintStats { ~PrintStats() {} };
void maybeStats() { fprintf(stderr, "maybe: pool %lu sat %lu (%.1fs) unsat %lu (%.1fs) unknown %lu (%.1fs)\n", nPool, nSat, tS, nUns, tU, nUnk, tK); }
bool Engine::maybe(E g) {
  for (size_t i = pool.size(); i-- > 0;) if ((*pool[i])(g)) { nPool++; return true; }
  auto ev = std::make_unique<Evaluator>();
  double t0 = solver.secs; Res r = solver.check(g, ev.get()); double dt = solver.secs - t0;
  if (r == Res::UNSAT) nUns++, tU += dt; else if (r == Res::SAT) nSat++, tS += dt; else nUnk++, tK += dt;
  if (r == Res::UNSAT) return false;
  if (r == Res::SAT) { if (pool.size() >= 24) pool.erase(pool.begin()); pool.push_back(std::move(ev)); }
  return true;
}
E Engine::canonB(E g) {
  if (g->depth <= opt.cut) return g;
  auto it = canonMemo.find(g); if (it != canonMemo.end()) return it->second;
  solver.confCap = opt.cutConf; E r; struct Z { Solver& s; ~Z() { s.confCap = 0; } } z{solver};
  if (!opt.cutConf) { char b[32]; snprintf(b, 32, "cut!%u", g->id); r = mkVar(b, 1); solver.define(r, g); nCuts++; }
  else if (!maybe(g)) { solver.add(mkNot(g)); r = F(); nDropped++; }
  else if (!maybe(mkNot(g))) { solver.add(g); r = T(); nDropped++; }
  else { char b[32]; snprintf(b, 32, "cut!%u", g->id); r = mkVar(b, 1); solver.define(r, g); nCuts++; }
  canonMemo[g] = r; canonMemo[mkNot(g)] = mkNot(r); canonMemo[r] = r;
  return r;
}
E Engine::canon(E v) {
  if (v->depth <= opt.cut) return v;
  if (v->w == 1) return canonB(v);
  auto it = canonMemo.find(v); if (it != canonMemo.end()) return it->second;
  E r = v;
  if (v->k == K::SET) {
    std::vector<std::pair<u128, E>> items; bool ch = false;
    for (size_t i = 0; i < v->ch.size(); i++) {
      E g = v->ch[i], n = canonB(g); if (n != g) ch = true;
      if (isT(n)) { items.clear(); items.push_back({v->vals[i], n}); ch = true; break; }
      if (!isF(n)) items.push_back({v->vals[i], n});
    }
    if (ch) r = items.empty() ? mkConst(v->vals[0], v->w) : mkSet(items, v->w);
  } else if (v->k == K::ITE) { E c = canonB(v->ch[0]), a = canon(v->ch[1]), b = canon(v->ch[2]); if (c != v->ch[0] || a != v->ch[1] || b != v->ch[2]) r = mkIte(c, a, b); }
  canonMemo[v] = r; canonMemo[r] = r;
  return r;
}
void Engine::canonVal(Val& v) {
  if (v.e) v.e = canon(v.e);
  else if (v.agg) { auto n = std::make_shared<std::vector<Val>>(*v.agg); for (auto& x : *n) canonVal(x); v.agg = n; }
}
void Engine::canonAll(Mem& m) {
  pool.clear();
  for (size_t i = 0; i < m.o.size(); i++) {
    Obj& o = *m.o[i].second; bool ch = canon(o.alive) != o.alive;
    for (auto& c : o.cells) if (canon(c.v) != c.v) ch = true;
    if (!ch) continue;
    Obj& w = m.wr((int)i); w.alive = canon(w.alive); for (auto& c : w.cells) c.v = canon(c.v);
  }
  if (opt.hb && m.hb) {
    HB& h = m.hbw();
    auto es = [&](EvSet& s) { for (auto it = s.begin(); it != s.end();) { it->second = canonB(it->second); if (isF(it->second)) it = s.erase(it); else ++it; } };
    for (auto* mm : {&h.thr, &h.pend, &h.rel}) for (auto& p : *mm) es(p.second);
    for (auto& p : h.sync) es(p.second);
    for (auto& p : h.acc) { es(p.second.w); es(p.second.r); es(p.second.aw); es(p.second.ar); }
  }
  for (auto& pt : parks) for (auto it = pt.begin(); it != pt.end();) {
    Park& p = it->second; p.guard = canonB(p.guard);
    if (isF(p.guard)) { it = pt.erase(it); continue; }
    for (auto& f : p.frames) for (auto& r : f.regs) canonVal(r);
    ++it;
  }
}
// ---------------------------------------------------------------- access
std::vector<Engine::Tgt> Engine::resolve(State& s, E addr, unsigned sz, const char* what) {
  std::vector<std::pair<u128, E>> lv;
  std::vector<Tgt> out;
  if (!leaves(addr, lv, 2048)) {
    lv.clear();
    E left = s.guard; bool ok = false;
    for (int n = 0; n < 64; n++) {
      Evaluator ev;
      Res r = solver.check(left, &ev);
      if (r == Res::UNSAT) { ok = true; break; }
      if (r != Res::SAT) break;
      u128 v = ev(addr);
      E g = mkEq(addr, mkConst(v, 64));
      lv.push_back({v, g});
      left = mkAnd(left, mkNot(g));
    }
    if (!ok) { unsupported(s, std::string("non-enumerable address in ") + what + ": " + str(addr, 3)); return out; }
    if (lv.empty()) { s.guard = F(); return out; }
  }
  for (auto& p : lv) {
    u64 a = (u64)p.first; E g = p.second;
    if (lv.size() > 1 && isF(mkAnd(s.guard, g))) continue;
    int i = s.mem.find(a);
    Obj* ob = nullptr; Obj* co = nullptr; u64 off = 0;
    if (i >= 0) { Obj& o = *s.mem.o[i].second; if (a + sz <= o.base + o.size) { ob = &o; off = a - o.base; } }
    if (!ob) {
      auto it = constMem.upper_bound(a);
      if (it != constMem.begin()) { --it; Obj& o = *it->second; if (a + sz <= o.base + o.size) { co = &o; off = a - o.base; } }
    }
    if (!ob && !co) {
      char b[160]; snprintf(b, 160, "%s of %u bytes at %s address %llx", what, sz, a < 4096 ? "null" : a >= 0x700000000000ull ? "dead stack" : a >= 0x500000000000ull ? "freed/invalid heap" : "invalid", (unsigned long long)a);
      violate(s, g, "memory", b);
      continue;
    }
    if (ob && !isT(ob->alive)) {
      bool own = false;
      if (ob->kind == OSTACK && ob->tid == s.tid) for (auto& f : s.frames) for (u64 x : f.allocas) if (x == ob->base) own = true;
      if (!own) { E dead = mkAnd(g, mkNot(ob->alive)); if (!isF(mkAnd(s.guard, dead))) { char b[120]; snprintf(b, 120, "%s of %u bytes in %s object after its lifetime", what, sz, ob->kind == OSTACK ? "stack" : "heap"); violate(s, dead, "memory", b); } }
    }
    out.push_back({ob ? i : -1, co, off, g, a});
  }
  return out;
}
E Engine::loadInt(State& s, E addr, unsigned n, bool track) {
  auto tg = resolve(s, addr, n, "read");
  if (tg.empty()) return mkConst(0, n * 8);
  E r = nullptr;
  for (auto& t : tg) {
    Obj& o = t.idx >= 0 ? *s.mem.o[t.idx].second : *t.cobj;
    E v = readObj(o, t.off, n);
    r = r ? mkIte(t.g, v, r) : v;
  }
  if (opt.hb && track && mode != SEQ) for (auto& t : tg) if (t.idx >= 0 && !s.mem.o[t.idx].second->ghost) hbAccess(s, t.addr, n, false, false, tg.size() > 1 ? t.g : T());
  return r;
}
void Engine::storeInt(State& s, E addr, unsigned n, E v, bool track) {
  auto tg = resolve(s, addr, n, "write");
  for (auto& t : tg) {
    if (t.idx < 0) { violate(s, t.g, "memory", "write to constant memory"); continue; }
    Obj& o = s.mem.wr(t.idx);
    if (tg.size() == 1) writeObj(o, t.off, n, v);
    else writeObj(o, t.off, n, mkIte(t.g, v, readObj(o, t.off, n)));
    if (opt.hb && track && mode != SEQ && !o.ghost) hbAccess(s, t.addr, n, true, false, tg.size() > 1 ? t.g : T());
  }
}
Val Engine::loadTy(State& s, E addr, Type* t) {
  Val v;
  if (auto* st = dyn_cast<StructType>(t)) {
    v.agg = std::make_shared<std::vector<Val>>();
    auto* sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i)));
    return v;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    v.agg = std::make_shared<std::vector<Val>>();
    u64 es = DL.getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadTy(s, mkAdd(addr, mkConst(i * es, 64)), at->getElementType()));
    return v;
  }
  unsigned w = width(t), n = msize(t);
  if (!w) { unsupported(s, "load of unsupported type"); v.e = mkConst(0, 64); return v; }
  E x = loadInt(s, addr, n);
  v.e = w == n * 8 ? x : mkExtract(x, 0, w);
  return v;
}
void Engine::storeTy(State& s, E addr, Type* t, const Val& v) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i), (*v.agg)[i]);
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    u64 es = DL.getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) storeTy(s, mkAdd(addr, mkConst(i * es, 64)), at->getElementType(), (*v.agg)[i]);
    return;
  }
  unsigned n = msize(t);
  if (!v.e) { unsupported(s, "store of unsupported value"); return; }
  storeInt(s, addr, n, mkZext(v.e, n * 8));
}
void Engine::copyMem(State& s, E dst, E src, u64 n) {
  // copy by the source's cell structure when concrete, else bytewise in 8-byte chunks
  std::vector<std::pair<u64, unsigned>> pieces;
  if (isC(src)) {
    int i = s.mem.find((u64)src->c); Obj* o = nullptr;
    if (i >= 0 && (u64)src->c + n <= s.mem.o[i].second->base + s.mem.o[i].second->size) o = s.mem.o[i].second.p;
    if (o) {
      u64 off = (u64)src->c - o->base, p = off;
      for (auto& c : o->cells) {
        if (c.off + c.sz <= p || c.off >= off + n) continue;
        if (c.off > p) { for (u64 q = p; q < c.off; ) { unsigned k = (unsigned)std::min<u64>(8, c.off - q); if (o->zero) pieces.push_back({q - off, k}); q += k; } p = c.off; }
        u64 e = std::min<u64>(c.off + c.sz, off + n);
        pieces.push_back({p - off, (unsigned)(e - p)}); p = e;
      }
      if (o->zero) while (p < off + n) { unsigned k = (unsigned)std::min<u64>(8, off + n - p); pieces.push_back({p - off, k}); p += k; }
      std::vector<E> vals;
      for (auto& q : pieces) vals.push_back(loadInt(s, mkAdd(src, mkConst(q.first, 64)), q.second));
      for (size_t k = 0; k < pieces.size(); k++) storeInt(s, mkAdd(dst, mkConst(pieces[k].first, 64)), pieces[k].second, vals[k]);
      return;
    }
  }
  std::vector<E> vals;
  for (u64 p = 0; p < n; p += 8) { unsigned k = (unsigned)std::min<u64>(8, n - p); pieces.push_back({p, k}); vals.push_back(loadInt(s, mkAdd(src, mkConst(p, 64)), k)); }
  for (size_t k = 0; k < pieces.size(); k++) storeInt(s, mkAdd(dst, mkConst(pieces[k].first, 64)), pieces[k].second, vals[k]);
}
u64 Engine::allocHeap(State& s, u64 size, const Value* site, u64 zero) {
  u64 chain = s.frames.empty() ? 0 : s.frames.back().chain;
  for (int ord = 0;; ord++) {
    auto key = std::make_tuple(s.tid, chain, site, size, ord);
    auto it = heapAddr.find(key);
    u64 a;
    if (it == heapAddr.end()) { a = nextHeap; nextHeap += (size + 79) & ~15ull; heapAddr[key] = a; }
    else a = it->second;
    int i = s.mem.find(a);
    if (i >= 0 && s.mem.o[i].first == a && !isF(mkAnd(s.guard, s.mem.o[i].second->alive))) continue;
    Obj* o = new Obj; o->base = a; o->size = size ? size : 1; o->alive = T(); o->kind = OHEAP; o->zero = zero; o->tid = s.tid; o->site = site;
    s.mem.add(ObjP(o));
    if (opt.hb && s.mem.hb) { auto& ac = s.mem.hbw().acc; auto b = ac.lower_bound({a, 0}); while (b != ac.end() && b->first.first < a + size) b = ac.erase(b); }
    return a;
  }
}
void Engine::freeHeap(State& s, E p) {
  std::vector<std::pair<u128, E>> lv;
  if (!leaves(p, lv, 256)) { unsupported(s, "free of non-enumerable pointer"); return; }
  for (auto& l : lv) {
    if (l.first == 0) continue;
    if (lv.size() > 1 && isF(mkAnd(s.guard, l.second))) continue;
    int i = s.mem.find((u64)l.first);
    if (i < 0 || s.mem.o[i].first != (u64)l.first || s.mem.o[i].second->kind != OHEAP) { violate(s, l.second, "memory", "free of an invalid or already freed pointer"); continue; }
    Obj& o = s.mem.wr(i);
    if (!isT(o.alive)) { E d = mkAnd(l.second, mkNot(o.alive)); if (!isF(mkAnd(s.guard, d))) violate(s, d, "memory", "double free"); }
    if (opt.hb && mode != SEQ) for (u64 q = 0; q < o.size; q += 8) hbAccess(s, o.base + q, (unsigned)std::min<u64>(8, o.size - q), true, false, l.second);
    o.alive = lv.size() == 1 ? F() : mkAnd(o.alive, mkNot(l.second));
    if (isF(o.alive)) s.mem.del((u64)l.first);
  }
}

// ---------------------------------------------------------------- happens-before
static void orInto(EvSet& d, const EvSet& a, E cond) {
  for (auto& p : a) { E x = mkAnd(cond, p.second); if (isF(x)) continue; auto it = d.find(p.first); if (it == d.end()) d[p.first] = x; else it->second = mkOr(it->second, x); }
}
// per-thread current event: stored as the highest own id in thr[t] of this step
int Engine::curEv(State& s) {
  if (step < 0) return s.tid;
  int lo = evBase + step * SEG;
  auto& m = s.mem.hbw().thr[s.tid];
  auto it = m.lower_bound(lo + SEG);
  if (it != m.begin()) { --it; if (it->first >= lo) { it->second = T(); return it->first; } }   // merged paths: the later event is the current one on all of them
  m[lo] = T();
  return lo;
}
void Engine::hbBump(State& s) {
  if (step < 0) return;
  int c = curEv(s), lo = evBase + step * SEG;
  if (c + 1 < lo + SEG) s.mem.hbw().thr[s.tid][c + 1] = T();
}
void Engine::hbAcquire(State& s, int tid, E loc, E cond) {
  if (!opt.hb || mode == SEQ) return;
  std::vector<std::pair<u128, E>> lv; if (!leaves(loc, lv)) return;
  HB& h = s.mem.hbw();
  for (auto& l : lv) { auto it = h.sync.find((u64)l.first); if (it != h.sync.end()) { EvSet c = it->second; orInto(h.thr[tid], c, mkAnd(cond, l.second)); } }
}
void Engine::hbRelease(State& s, int tid, E loc, E cond, bool merge) {
  if (!opt.hb || mode == SEQ) return;
  std::vector<std::pair<u128, E>> lv; if (!leaves(loc, lv)) return;
  curEv(s);
  HB& h = s.mem.hbw();
  for (auto& l : lv) {
    E c = mkAnd(cond, l.second);
    EvSet& d = h.sync[(u64)l.first];
    if (!merge) d = mergeEv(c, h.thr[tid], d); else orInto(d, h.thr[tid], c);
  }
  hbBump(s);
}
void Engine::hbAccess(State& s, u64 addr, unsigned sz, bool write, bool atomic, E cond) {
  if (!opt.hb || mode == SEQ) return;
  int ev = curEv(s);
  HB& h = s.mem.hbw();
  const EvSet& mine = h.thr[s.tid];
  std::vector<E> races;
  auto chk = [&](const EvSet& es) {
    for (auto& p : es) {
      auto it = mine.find(p.first);
      E x = it == mine.end() ? p.second : mkAnd(p.second, mkNot(it->second));
      x = mkAnd(x, cond);
      if (!isF(x)) races.push_back(x);
    }
  };
  auto it = h.acc.lower_bound({addr >= 16 ? addr - 16 : 0, 0});
  for (; it != h.acc.end() && it->first.first < addr + sz; ++it) {
    if (it->first.first + it->first.second <= addr) continue;
    chk(it->second.w);
    if (!atomic) chk(it->second.aw);
    if (write) { chk(it->second.r); if (!atomic) chk(it->second.ar); }
  }
  if (!races.empty()) violate(s, mkOrV(races), "race", std::string("data race on ") + (write ? "write" : "read"));
  Acc& a = h.acc[{addr, sz}];
  auto upd = [&](EvSet& es, bool replace) {
    if (replace) { EvSet n; for (auto& p : es) { E x = mkAnd(p.second, mkNot(cond)); if (!isF(x)) n[p.first] = x; } es.swap(n); }
    auto f = es.find(ev); es[ev] = f == es.end() ? cond : mkOr(f->second, cond);
  };
  // a write ordered after all earlier accesses supersedes them
  if (write) { if (!atomic) { upd(a.w, true); EvSet e; if (isT(cond)) { a.r.clear(); a.aw.clear(); a.ar.clear(); } } else upd(a.aw, false); }
  else { upd(atomic ? a.ar : a.r, false); }
}

void Engine::hbAtomicRead(State& s, E p, unsigned n, AtomicOrdering o, E cond) {
  if (!opt.hb || mode == SEQ || isF(cond)) return;
  std::vector<std::pair<u128, E>> lv; if (!leaves(p, lv)) return;
  for (auto& q : lv) { int ix = s.mem.find((u64)q.first); if (ix >= 0 && !s.mem.o[ix].second->ghost) hbAccess(s, (u64)q.first, n, false, true, mkAnd(cond, q.second)); }
  if (isAcquireOrStronger(o)) { hbAcquire(s, s.tid, p, cond); return; }
  HB& h = s.mem.hbw();   // a later acquire fence may use it
  for (auto& q : lv) { auto it = h.sync.find((u64)q.first); if (it == h.sync.end()) continue; EvSet c = it->second; orInto(h.pend[s.tid], c, mkAnd(cond, q.second)); }
}
void Engine::hbAtomicWrite(State& s, E p, unsigned n, AtomicOrdering o, E cond, bool rmw) {
  if (!opt.hb || mode == SEQ || isF(cond)) return;
  std::vector<std::pair<u128, E>> lv; if (!leaves(p, lv)) return;
  for (auto& q : lv) { int ix = s.mem.find((u64)q.first); if (ix >= 0 && !s.mem.o[ix].second->ghost) hbAccess(s, (u64)q.first, n, true, true, mkAnd(cond, q.second)); }
  if (isReleaseOrStronger(o)) { hbRelease(s, s.tid, p, cond, rmw); return; }
  HB& h = s.mem.hbw();
  for (auto& q : lv) {
    E c = mkAnd(cond, q.second); EvSet& d = h.sync[(u64)q.first];
    if (rmw) orInto(d, h.rel[s.tid], c); else d = mergeEv(c, h.rel[s.tid], d);
  }
}
