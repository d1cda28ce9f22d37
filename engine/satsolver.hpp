// Bit-vector satisfiability by bit-blasting to CNF, decided by MiniSat (incremental, assumptions).
#pragma once
#include "expr.hpp"
#include <minisat/core/Solver.h>
#include <chrono>
#include <functional>
#include <memory>
// CaDiCaL as shipped inside libcvc5 (headers are not installed; only these members are used)
namespace CaDiCaL { class Solver { alignas(16) char space[4096]; public: Solver(); ~Solver(); void add(int); void assume(int); int solve(); int val(int); bool limit(const char*, int); bool set(const char*, int); }; }
namespace vx {
struct Sat {   // MiniSat, with CaDiCaL taking over hard queries
  Minisat::Solver M; std::unique_ptr<CaDiCaL::Solver> C; bool cadModel = false; std::vector<std::vector<int>> queue;
  int handover = 20000; unsigned hard = 0;
  static int dim(Minisat::Lit l) { int v = Minisat::var(l) + 1; return Minisat::sign(l) ? -v : v; }
  int newVar() { return M.newVar(); }
  int nVars() const { return M.nVars(); } int nClauses() const { return M.nClauses(); } int nLearnts() const { return M.nLearnts(); }
  void put(const Minisat::vec<Minisat::Lit>& c) { std::vector<int> d; for (int i = 0; i < c.size(); i++) d.push_back(dim(c[i])); queue.push_back(std::move(d)); }
  void addClause(const Minisat::vec<Minisat::Lit>& c) { put(c); M.addClause(c); }
  void addClause(Minisat::Lit a) { Minisat::vec<Minisat::Lit> c; c.push(a); addClause(c); }
  void addClause(Minisat::Lit a, Minisat::Lit b) { Minisat::vec<Minisat::Lit> c; c.push(a); c.push(b); addClause(c); }
  void addClause(Minisat::Lit a, Minisat::Lit b, Minisat::Lit d) { Minisat::vec<Minisat::Lit> c; c.push(a); c.push(b); c.push(d); addClause(c); }
  // 1 sat, 0 unsat, 2 unknown
  int solve(const Minisat::vec<Minisat::Lit>& as, int cap, const std::function<bool()>& timeup) {
    cadModel = false;
    M.setConfBudget(cap ? cap : handover);
    Minisat::lbool r = M.solveLimited(as);
    if (!(r == Minisat::lbool((uint8_t)2))) return r == Minisat::lbool((uint8_t)0) ? 1 : 0;
    if (cap) return 2;
    hard++;
    if (!C) { C.reset(new CaDiCaL::Solver()); }
    for (auto& c : queue) { for (int l : c) C->add(l); C->add(0); }
    queue.clear();
    for (;;) {
      for (int i = 0; i < as.size(); i++) C->assume(dim(as[i]));
      C->limit("conflicts", 20000);
      int q = C->solve();
      if (q == 10) { cadModel = true; return 1; }
      if (q == 20) return 0;
      if (timeup()) return 2;
    }
  }
  bool value(Minisat::Lit l) { if (!cadModel) return M.modelValue(l) == Minisat::lbool((uint8_t)0); int d = dim(l); int v = C->val(d); return v > 0; }
};
enum class Res { SAT, UNSAT, UNKNOWN };
struct Solver {
  typedef Minisat::Lit Lit;
  Sat S;
  Lit tt;
  std::unordered_map<E, Lit> bm;                    // booleans
  std::unordered_map<E, std::vector<Lit>> vm;       // bit-vectors, lsb first
  std::vector<E> vars;
  std::unordered_map<E, E> defs;
  std::unordered_map<uint64_t, int> andH, xorH;     // gate hashing, value = Lit.x
  double secs = 0; uint64_t queries = 0; double limit = 1e18; int confCap = 0;
  explicit Solver(const char* = "") {
    if (getenv("VX_HANDOVER")) S.handover = atoi(getenv("VX_HANDOVER"));
    tt = Minisat::mkLit(S.newVar()); S.addClause(tt);
  }
  Lit ff() { return ~tt; }
  bool isTrue(Lit l) { return l == tt; }
  bool isFalse(Lit l) { return l == ~tt; }
  Lit nv() { return Minisat::mkLit(S.newVar()); }
  Lit and2(Lit a, Lit b) {
    if (isFalse(a) || isFalse(b) || a == ~b) return ff();
    if (isTrue(a) || a == b) return b;
    if (isTrue(b)) return a;
    if (b < a) std::swap(a, b);
    uint64_t k = ((uint64_t)(unsigned)a.x << 32) | (unsigned)b.x;
    auto it = andH.find(k); if (it != andH.end()) { Lit l; l.x = it->second; return l; }
    Lit r = nv(); S.addClause(~r, a); S.addClause(~r, b); S.addClause(r, ~a, ~b);
    andH[k] = r.x; return r;
  }
  Lit or2(Lit a, Lit b) { return ~and2(~a, ~b); }
  Lit xor2(Lit a, Lit b) {
    if (isFalse(a)) return b; if (isFalse(b)) return a; if (isTrue(a)) return ~b; if (isTrue(b)) return ~a;
    if (a == b) return ff(); if (a == ~b) return tt;
    bool n = Minisat::sign(a) ^ Minisat::sign(b);
    Lit p = Minisat::mkLit(Minisat::var(a)), q = Minisat::mkLit(Minisat::var(b)); if (q < p) std::swap(p, q);
    uint64_t k = ((uint64_t)(unsigned)p.x << 32) | (unsigned)q.x;
    auto it = xorH.find(k); Lit r;
    if (it != xorH.end()) r.x = it->second;
    else { r = nv(); S.addClause(~r, p, q); S.addClause(~r, ~p, ~q); S.addClause(r, ~p, q); S.addClause(r, p, ~q); xorH[k] = r.x; }
    return n ? ~r : r;
  }
  Lit mux(Lit c, Lit a, Lit b) {
    if (isTrue(c)) return a; if (isFalse(c)) return b; if (a == b) return a;
    if (isTrue(a)) return or2(c, b); if (isFalse(a)) return and2(~c, b); if (isTrue(b)) return or2(~c, a); if (isFalse(b)) return and2(c, a);
    if (a == ~b) return xor2(c, b);
    Lit r = nv();
    S.addClause(~c, ~a, r); S.addClause(~c, a, ~r); S.addClause(c, ~b, r); S.addClause(c, b, ~r); S.addClause(~a, ~b, r); S.addClause(a, b, ~r);
    return r;
  }
  Lit andN(std::vector<Lit> v) {
    std::vector<Lit> w; for (Lit l : v) { if (isFalse(l)) return ff(); if (!isTrue(l)) w.push_back(l); }
    std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end());
    for (size_t i = 0; i + 1 < w.size(); i++) if (w[i] == ~w[i + 1]) return ff();
    if (w.empty()) return tt; if (w.size() == 1) return w[0]; if (w.size() == 2) return and2(w[0], w[1]);
    Lit r = nv(); Minisat::vec<Lit> cl; cl.push(r);
    for (Lit l : w) { S.addClause(~r, l); cl.push(~l); }
    S.addClause(cl); return r;
  }
  Lit orN(std::vector<Lit> v) { for (auto& l : v) l = ~l; return ~andN(v); }
  std::vector<Lit> num(u128 c, unsigned w) { std::vector<Lit> r(w); for (unsigned i = 0; i < w; i++) r[i] = (c >> i) & 1 ? tt : ff(); return r; }
  std::vector<Lit> add(const std::vector<Lit>& a, const std::vector<Lit>& b, Lit ci) {
    std::vector<Lit> r(a.size()); Lit c = ci;
    for (size_t i = 0; i < a.size(); i++) {
      Lit x = xor2(a[i], b[i]); r[i] = xor2(x, c);
      c = or2(and2(a[i], b[i]), and2(x, c));
    }
    return r;
  }
  std::vector<Lit> neg(std::vector<Lit> a) { for (auto& l : a) l = ~l; return add(a, num(0, a.size()), tt); }
  std::vector<Lit> shl(const std::vector<Lit>& a, unsigned k) { std::vector<Lit> r(a.size(), ff()); for (size_t i = k; i < a.size(); i++) r[i] = a[i - k]; return r; }
  std::vector<Lit> mulc(const std::vector<Lit>& a, u128 c) {
    unsigned w = a.size(); std::vector<Lit> r = num(0, w); bool first = true;
    for (unsigned i = 0; i < w; i++) if ((c >> i) & 1) { if (first) { r = shl(a, i); first = false; } else r = add(r, shl(a, i), ff()); }
    return r;
  }
  std::vector<Lit> mul(const std::vector<Lit>& a, const std::vector<Lit>& b) {
    unsigned w = a.size(); std::vector<Lit> r = num(0, w);
    for (unsigned i = 0; i < w; i++) { if (isFalse(a[i])) continue; std::vector<Lit> t = shl(b, i); for (auto& l : t) l = and2(l, a[i]); r = add(r, t, ff()); }
    return r;
  }
  Lit ult(const std::vector<Lit>& a, const std::vector<Lit>& b) { // a<b
    Lit r = ff(); for (size_t i = 0; i < a.size(); i++) { r = mux(xor2(a[i], b[i]), b[i], r); } return r;
  }
  void udivrem(const std::vector<Lit>& a, const std::vector<Lit>& b, std::vector<Lit>& q, std::vector<Lit>& r) {
    unsigned w = a.size(); q = num(0, w); std::vector<Lit> rem = num(0, w + 1); std::vector<Lit> bb = b; bb.push_back(ff());
    for (int i = (int)w - 1; i >= 0; i--) {
      rem = shl(rem, 1); rem[0] = a[i];
      Lit ge = ~ult(rem, bb); q[i] = ge;
      std::vector<Lit> nb = bb; for (auto& l : nb) l = ~l;
      std::vector<Lit> d = add(rem, nb, tt);
      for (unsigned k = 0; k <= w; k++) rem[k] = mux(ge, d[k], rem[k]);
    }
    r.assign(rem.begin(), rem.begin() + w);
    Lit z = ~orN(b); // division by zero: quotient all ones, remainder a
    for (unsigned k = 0; k < w; k++) { q[k] = mux(z, tt, q[k]); r[k] = mux(z, a[k], r[k]); }
  }
  std::vector<Lit> shift(K k, const std::vector<Lit>& a, const std::vector<Lit>& b) {
    unsigned w = a.size(); std::vector<Lit> r = a; Lit fill = k == K::ASHR ? a[w - 1] : ff();
    unsigned lg = 0; while ((1u << lg) < w) lg++;
    for (unsigned s = 0; s < lg; s++) { std::vector<Lit> t(w); unsigned d = 1u << s; for (unsigned i = 0; i < w; i++) { Lit x = k == K::SHL ? (i >= d ? r[i - d] : ff()) : (i + d < w ? r[i + d] : fill); t[i] = mux(b[s], x, r[i]); } r = t; }
    std::vector<Lit> hi; for (unsigned s = lg; s < w; s++) hi.push_back(b[s]);
    Lit big = hi.empty() ? ff() : orN(hi);
    for (auto& l : r) l = mux(big, fill, l);
    return r;
  }
  bool isBool(E e) { return e->w == 1; }
  std::vector<Lit> bv(E e) { if (e->w == 1) return {bm[e]}; return vm[e]; }
  E divLower(E e) {
    auto it = defs.find(e); if (it != defs.end()) return it->second;
    E x = e->ch[0], c = e->ch[1]; unsigned w = e->w;
    char nm[64]; snprintf(nm, 64, "q!%u", e->id);
    E q = mkVar(nm, w), r = mkSub(x, mkMul(q, c));
    E side;
    if (e->k == K::UDIV) side = mkAnd(mkAnd(mkUlt(r, c), mkUle(mkMul(q, c), x)), mkUle(q, mkConst(maskw(w) / c->c, w)));
    else {
      i128 C = sx(c->c, w);
      i128 mx = (i128)(maskw(w) >> 1) / C;
      E ng = mkSlt(x, mkConst(0, w)), z = mkConst(0, w);
      E okp = mkAnd(mkSle(z, r), mkSlt(r, c)), okn = mkAnd(mkSle(r, z), mkSlt(mkConst((u128)-C, w), r));
      side = mkAnd(mkIte(ng, okn, okp), mkAnd(mkSle(q, mkConst((u128)mx, w)), mkSle(mkConst((u128)(-mx - 1), w), q)));
      side = mkAnd(side, mkIte(ng, mkSle(q, z), mkSle(z, q)));
    }
    defs[e] = q;
    S.addClause(tr(side));
    return q;
  }
  bool known(E e) { return isBool(e) ? bm.count(e) : vm.count(e); }
  bool divc(E e) { return (e->k == K::UDIV || e->k == K::SDIV) && e->w > 8 && isC(e->ch[1]) && e->ch[1]->c != 0 && (e->k == K::UDIV || sx(e->ch[1]->c, e->w) > 0); }
  void walk(E root) {
    std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back();
      if (known(e)) { st.pop_back(); continue; }
      if (divc(e)) { st.pop_back(); E q = divLower(e); walk(q); vm[e] = vm[q]; continue; }
      bool ready = true;
      for (E c : e->ch) if (!known(c)) { st.push_back(c); ready = false; }
      if (!ready) continue;
      st.pop_back();
      one(e);
    }
  }
  Lit tr(E e) { walk(e); return bm[e]; }
  void one(E e) {
    unsigned w = e->w;
    if (w == 1) {
      Lit r;
      switch (e->k) {
        case K::CONST: r = e->c ? tt : ff(); break;
        case K::VAR: r = nv(); vars.push_back(e); break;
        case K::NOT: r = ~bm[e->ch[0]]; break;
        case K::AND: { std::vector<Lit> v; for (E c : e->ch) v.push_back(bm[c]); r = andN(v); break; }
        case K::ITE: r = mux(bm[e->ch[0]], bm[e->ch[1]], bm[e->ch[2]]); break;
        case K::EQ: { auto a = bv(e->ch[0]), b = bv(e->ch[1]); std::vector<Lit> v; for (size_t i = 0; i < a.size(); i++) v.push_back(~xor2(a[i], b[i])); r = andN(v); break; }
        case K::ULT: r = ult(bv(e->ch[0]), bv(e->ch[1])); break;
        case K::SLT: { auto a = bv(e->ch[0]), b = bv(e->ch[1]); a.back() = ~a.back(); b.back() = ~b.back(); r = ult(a, b); break; }
        case K::EXTRACT: r = bv(e->ch[0])[e->lo]; break;
        case K::SET: { std::vector<Lit> v; for (size_t i = 0; i < e->ch.size(); i++) if (e->vals[i]) v.push_back(bm[e->ch[i]]); r = orN(v); break; }
        default: { auto v = vec(e); r = v[0]; }
      }
      bm[e] = r;
    } else vm[e] = vec(e);
  }
  std::vector<Lit> vec(E e) {
    unsigned w = e->w; std::vector<Lit> r(w);
    auto a = [&](int i) { return bv(e->ch[i]); };
    switch (e->k) {
      case K::CONST: return num(e->c, w);
      case K::VAR: for (auto& l : r) l = nv(); vars.push_back(e); return r;
      case K::ITE: { auto x = a(1), y = a(2); Lit c = bm[e->ch[0]]; for (unsigned i = 0; i < w; i++) r[i] = mux(c, x[i], y[i]); return r; }
      case K::SET: {
        for (unsigned b = 0; b < w; b++) {
          std::vector<Lit> one, zero; for (size_t i = 0; i < e->ch.size(); i++) ((e->vals[i] >> b) & 1 ? one : zero).push_back(bm[e->ch[i]]);
          r[b] = one.empty() ? ff() : zero.empty() ? tt : one.size() <= zero.size() ? orN(one) : ~orN(zero);
        }
        return r; }
      case K::LIN: {
        std::vector<Lit> acc = num(e->c, w); bool first = e->c == 0;
        for (size_t i = 0; i < e->ch.size(); i++) {
          auto x = bv(e->ch[i]); u128 k = e->vals[i]; i128 sk = sx(k, w);
          if (sk < 0) { auto t = mulc(x, (u128)-sk); for (auto& l : t) l = ~l; acc = add(acc, t, tt); first = false; }
          else { auto t = mulc(x, k); if (first) { acc = t; first = false; } else acc = add(acc, t, ff()); }
        }
        return acc; }
      case K::MUL: return mul(a(0), a(1));
      case K::UDIV: case K::UREM: { std::vector<Lit> q, m; udivrem(a(0), a(1), q, m); return e->k == K::UDIV ? q : m; }
      case K::SDIV: case K::SREM: {
        auto x = a(0), y = a(1); Lit sx_ = x.back(), sy = y.back();
        auto ax = neg(x), ay = neg(y); for (unsigned i = 0; i < w; i++) { ax[i] = mux(sx_, ax[i], x[i]); ay[i] = mux(sy, ay[i], y[i]); }
        std::vector<Lit> q, m; udivrem(ax, ay, q, m);
        if (e->k == K::SDIV) { auto nq = neg(q); Lit s = xor2(sx_, sy); for (unsigned i = 0; i < w; i++) r[i] = mux(s, nq[i], q[i]); }
        else { auto nm = neg(m); for (unsigned i = 0; i < w; i++) r[i] = mux(sx_, nm[i], m[i]); }
        return r; }
      case K::SHL: case K::LSHR: case K::ASHR: return shift(e->k, a(0), a(1));
      case K::BAND: { auto x = a(0), y = a(1); for (unsigned i = 0; i < w; i++) r[i] = and2(x[i], y[i]); return r; }
      case K::BOR: { auto x = a(0), y = a(1); for (unsigned i = 0; i < w; i++) r[i] = or2(x[i], y[i]); return r; }
      case K::BXOR: { auto x = a(0), y = a(1); for (unsigned i = 0; i < w; i++) r[i] = xor2(x[i], y[i]); return r; }
      case K::CONCAT: { auto h = a(0), l = a(1); l.insert(l.end(), h.begin(), h.end()); return l; }
      case K::EXTRACT: { auto x = a(0); return std::vector<Lit>(x.begin() + e->lo, x.begin() + e->lo + w); }
      case K::ZEXT: { auto x = a(0); x.resize(w, ff()); return x; }
      case K::SEXT: { auto x = a(0); Lit s = x.back(); x.resize(w, s); return x; }
      default: fprintf(stderr, "bitblast kind %d\n", (int)e->k); abort();
    }
  }
  void add(E e) {
    if (isT(e)) return;
    if (e->k == K::AND) { for (E c : e->ch) add(c); return; }
    if (e->k == K::NOT && e->ch[0]->k == K::AND) { Minisat::vec<Lit> cl; for (E c : e->ch[0]->ch) cl.push(~tr(c)); S.addClause(cl); return; }
    S.addClause(tr(e));
  }
  void define(E v, E g) { bm[v] = tr(g); vars.push_back(v); }   // v is a name for g
  void timeout(unsigned ms) { limit = ms / 1000.0; }
  Res check(E e, Evaluator* model = nullptr) {
    if (isF(e)) return Res::UNSAT;
    queries++;
    Minisat::vec<Lit> as;
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    if (e->k == K::AND) { for (E c : e->ch) as.push(tr(c)); } else as.push(tr(e));
    int r = S.solve(as, confCap, [&] { return el() > limit; });
    secs += el(); if (getenv("VX_SLOWQ") && el() > 0.3) fprintf(stderr, "slow query %.2f s cap=%d res=%d vars=%d clauses=%d learnts=%d\n", el(), confCap, r, S.nVars(), S.nClauses(), S.nLearnts());
    if (r == 2) return Res::UNKNOWN;
    if (r == 0) return Res::UNSAT;
    if (model) {
      auto vals = std::make_shared<std::unordered_map<E, u128>>();
      for (E v : vars) {
        u128 x = 0; auto ls = bv(v);
        for (size_t i = 0; i < ls.size(); i++) if (S.value(ls[i])) x |= (u128)1 << i;
        (*vals)[v] = x;
      }
      model->memo.clear();
      model->var = [vals](E v) -> u128 { auto it = vals->find(v); return it == vals->end() ? 0 : it->second; };
    }
    return Res::SAT;
  }
};
}
