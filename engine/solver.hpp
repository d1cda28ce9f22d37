#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <memory>
namespace vx {
enum class Res { SAT, UNSAT, UNKNOWN };
struct Solver {
  Z3_context ctx; Z3_solver s;
  std::unordered_map<E, Z3_ast> memo;
  std::vector<std::pair<E, Z3_ast>> vars;
  std::unordered_map<E, E> defs;
  double secs = 0; uint64_t queries = 0;
  unsigned long nlit = 0;
  explicit Solver(const char* logic = "QF_FD") {
    Z3_config c = Z3_mk_config();
    ctx = Z3_mk_context(c);
    Z3_del_config(c);
    Z3_symbol sym = Z3_mk_string_symbol(ctx, logic);
    s = Z3_mk_solver_for_logic(ctx, sym);
    Z3_solver_inc_ref(ctx, s);
  }
  ~Solver() { Z3_solver_dec_ref(ctx, s); Z3_del_context(ctx); }
  Z3_ast num(u128 v, unsigned w) {
    std::string t; if (!v) t = "0";
    while (v) { t.insert(t.begin(), char('0' + (int)(v % 10))); v /= 10; }
    return Z3_mk_numeral(ctx, t.c_str(), Z3_mk_bv_sort(ctx, w));
  }
  E divLower(E e) { // SDIV/UDIV by constant -> fresh quotient with defining constraints
    auto it = defs.find(e); if (it != defs.end()) return it->second;
    E x = e->ch[0], c = e->ch[1]; unsigned w = e->w;
    char nm[64]; snprintf(nm, 64, "q!%u", e->id);
    E q = mkVar(nm, w), r = mkSub(x, mkMul(q, c));
    E side;
    if (e->k == K::UDIV) side = mkAnd(mkAnd(mkUlt(r, c), mkUle(mkMul(q, c), x)), mkUle(q, mkConst(maskw(w) / c->c, w)));
    else {
      i128 C = sx(c->c, w); if (C < 0) { fprintf(stderr, "sdiv by negative const\n"); abort(); }
      i128 mx = (i128)(maskw(w) >> 1) / C;
      E neg = mkSlt(x, mkConst(0, w)), z = mkConst(0, w);
      E okp = mkAnd(mkSle(z, r), mkSlt(r, c)), okn = mkAnd(mkSle(r, z), mkSlt(mkConst((u128)-C, w), r));
      side = mkAnd(mkIte(neg, okn, okp), mkAnd(mkSle(q, mkConst((u128)mx, w)), mkSle(mkConst((u128)(-mx - 1), w), q)));
      side = mkAnd(side, mkIte(neg, mkSle(q, z), mkSle(z, q)));
    }
    defs[e] = q;
    Z3_solver_assert(ctx, s, tr(side));
    return q;
  }
  Z3_ast tr(E root) {
    std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back();
      if (memo.count(e)) { st.pop_back(); continue; }
      if ((e->k == K::SDIV || e->k == K::UDIV) && isC(e->ch[1]) && e->ch[1]->c != 0) {
        st.pop_back();
        E q = divLower(e);
        memo[e] = tr(q);
        continue;
      }
      bool ready = true;
      for (E c : e->ch) if (!memo.count(c)) { st.push_back(c); ready = false; }
      if (!ready) continue;
      st.pop_back();
      memo[e] = one(e);
    }
    return memo[root];
  }
  Z3_ast one(E e) {
    auto a = [&](int i) { return memo[e->ch[i]]; };
    auto bv = [&](int i) -> Z3_ast { // operand as bit-vector
      if (e->ch[i]->w == 1) return Z3_mk_ite(ctx, a(i), num(1, 1), num(0, 1));
      return a(i); };
    switch (e->k) {
      case K::CONST: return e->w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->c, e->w);
      case K::VAR: {
        Z3_sort so = e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w);
        Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, e->name.c_str()), so);
        vars.push_back({e, v}); return v; }
      case K::NOT: return Z3_mk_not(ctx, a(0));
      case K::AND: { std::vector<Z3_ast> v; for (size_t i = 0; i < e->ch.size(); i++) v.push_back(a(i)); return Z3_mk_and(ctx, v.size(), v.data()); }
      case K::ITE: return Z3_mk_ite(ctx, a(0), a(1), a(2));
      case K::SET: { Z3_ast r = num(e->vals.back(), e->w);
        for (int i = (int)e->ch.size() - 2; i >= 0; i--) r = Z3_mk_ite(ctx, a(i), num(e->vals[i], e->w), r);
        return r; }
      case K::EQ: return Z3_mk_eq(ctx, a(0), a(1));
      case K::ULT: return Z3_mk_bvult(ctx, a(0), a(1));
      case K::SLT: return Z3_mk_bvslt(ctx, a(0), a(1));
      case K::LIN: { Z3_ast r = nullptr;
        for (size_t i = 0; i < e->ch.size(); i++) {
          u128 k = e->vals[i]; Z3_ast t;
          if (k == 1) t = a(i);
          else if (k == maskw(e->w)) { if (r) { r = Z3_mk_bvsub(ctx, r, a(i)); continue; } t = Z3_mk_bvneg(ctx, a(i)); }
          else t = Z3_mk_bvmul(ctx, a(i), num(k, e->w));
          r = r ? Z3_mk_bvadd(ctx, r, t) : t;
        }
        if (e->c) r = Z3_mk_bvadd(ctx, r, num(e->c, e->w));
        return r; }
      case K::MUL: return Z3_mk_bvmul(ctx, a(0), a(1));
      case K::UDIV: return Z3_mk_bvudiv(ctx, a(0), a(1));
      case K::UREM: return Z3_mk_bvurem(ctx, a(0), a(1));
      case K::SDIV: return Z3_mk_bvsdiv(ctx, a(0), a(1));
      case K::SREM: return Z3_mk_bvsrem(ctx, a(0), a(1));
      case K::SHL: return Z3_mk_bvshl(ctx, a(0), a(1));
      case K::LSHR: return Z3_mk_bvlshr(ctx, a(0), a(1));
      case K::ASHR: return Z3_mk_bvashr(ctx, a(0), a(1));
      case K::BAND: return Z3_mk_bvand(ctx, a(0), a(1));
      case K::BOR: return Z3_mk_bvor(ctx, a(0), a(1));
      case K::BXOR: return Z3_mk_bvxor(ctx, a(0), a(1));
      case K::CONCAT: return Z3_mk_concat(ctx, bv(0), bv(1));
      case K::EXTRACT: { Z3_ast r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, a(0)); if (e->w == 1) r = Z3_mk_eq(ctx, r, num(1, 1)); return r; }
      case K::ZEXT: return Z3_mk_zero_ext(ctx, e->w - e->ch[0]->w, bv(0));
      case K::SEXT: return Z3_mk_sign_ext(ctx, e->w - e->ch[0]->w, bv(0));
    }
    abort();
  }
  void add(E e) { if (isT(e)) return; Z3_solver_assert(ctx, s, tr(e)); }
  void timeout(unsigned ms) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  }
  // check constraints /\ e
  Res check(E e, Evaluator* model = nullptr) {
    if (isF(e)) return Res::UNSAT;
    Z3_ast lit = nullptr;
    if (!isT(e)) {
      char nm[48]; snprintf(nm, 48, "lit!%lu", nlit++);
      Z3_ast t = tr(e);
      lit = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx));
      Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, lit, t));
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool r = lit ? Z3_solver_check_assumptions(ctx, s, 1, &lit) : Z3_solver_check(ctx, s);
    secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    queries++;
    if (r == Z3_L_FALSE) return Res::UNSAT;
    if (r == Z3_L_UNDEF) return Res::UNKNOWN;
    if (model) {
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      auto vals = std::make_shared<std::unordered_map<E, u128>>();
      for (auto& p : vars) {
        Z3_ast v;
        if (!Z3_model_eval(ctx, m, p.second, true, &v)) continue;
        if (p.first->w == 1) (*vals)[p.first] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
        else {
          std::string t = Z3_get_numeral_string(ctx, v); u128 x = 0;
          for (char ch : t) x = x * 10 + (ch - '0');
          (*vals)[p.first] = x;
        }
      }
      Z3_model_dec_ref(ctx, m);
      model->memo.clear();
      model->var = [vals](E v) -> u128 { auto it = vals->find(v); return it == vals->end() ? 0 : it->second; };
    }
    return Res::SAT;
  }
};
}
