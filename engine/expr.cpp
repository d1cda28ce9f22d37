#include "expr.hpp"
#include <deque>
#include <tuple>
namespace vx {
static std::deque<Expr> arena;
struct HEq { bool operator()(E a, E b) const {
  return a->k == b->k && a->w == b->w && a->lo == b->lo && a->c == b->c && a->ch == b->ch && a->vals == b->vals && a->name == b->name; } };
struct HH { size_t operator()(E a) const { return a->hash; } };
static std::unordered_set<E, HH, HEq> table;
static const unsigned SETCAP = 600;

static size_t hmix(size_t h, size_t v) { return (h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))) * 0x100000001b3ull; }
static E intern(Expr& e) {
  size_t h = hmix((size_t)e.k * 131 + e.w, e.lo);
  h = hmix(h, (size_t)e.c); h = hmix(h, (size_t)(e.c >> 64));
  for (auto c : e.ch) h = hmix(h, c->id);
  for (auto v : e.vals) h = hmix(h, (size_t)v);
  if (!e.name.empty()) h = hmix(h, std::hash<std::string>()(e.name));
  e.hash = h;
  auto it = table.find(&e);
  if (it != table.end()) return *it;
  e.id = (uint32_t)arena.size();
  e.depth = 0; for (auto c : e.ch) e.depth = std::max(e.depth, c->depth + 1);
  arena.push_back(std::move(e));
  E r = &arena.back();
  table.insert(r);
  return r;
}
size_t numExprs() { return arena.size(); }
static E mk(K k, unsigned w, std::vector<E> ch, unsigned lo = 0) {
  Expr e; e.k = k; e.w = w; e.lo = lo; e.c = 0; e.ch = std::move(ch);
  return intern(e);
}
E mkConst(u128 v, unsigned w) { Expr e; e.k = K::CONST; e.w = w; e.lo = 0; e.c = v & maskw(w); return intern(e); }
E T() { static E t = mkConst(1, 1); return t; }
E F() { static E f = mkConst(0, 1); return f; }
E mkVar(const std::string& n, unsigned w) { Expr e; e.k = K::VAR; e.w = w; e.lo = 0; e.c = 0; e.name = n; return intern(e); }
E mkNot(E a) {
  if (a->neg) return a->neg;
  E r;
  if (isC(a)) r = mkBool(!a->c);
  else if (a->k == K::NOT) r = a->ch[0];
  else r = mk(K::NOT, 1, {a});
  a->neg = r; r->neg = a;
  return r;
}
void literals(E g, std::vector<E>& out) {
  if (g->k == K::AND) out.insert(out.end(), g->ch.begin(), g->ch.end());
  else if (!isT(g)) out.push_back(g);
}
static bool idlt(E a, E b) { return a->id < b->id; }
static bool has(const std::vector<E>& v, E x) { return std::binary_search(v.begin(), v.end(), x, idlt); }

E mkAndV(std::vector<E> in) {
  std::vector<E> v;
  for (int round = 0; ; round++) {
    v.clear();
    for (E e : in) {
      if (isF(e)) return F();
      if (isT(e)) continue;
      if (e->k == K::AND) v.insert(v.end(), e->ch.begin(), e->ch.end());
      else v.push_back(e);
    }
    std::sort(v.begin(), v.end(), idlt);
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.empty()) return T();
    if (v.size() == 1) return v[0];
    for (E e : v) if (e->neg && e->k != K::NOT ? has(v, e->neg) : false) return F();
    // simplify NOT(AND(S)) members against the other literals
    bool changed = false;
    if (v.size() <= 400) {
      std::vector<E> nv; nv.reserve(v.size());
      for (E e : v) {
        if (e->k == K::NOT && e->ch[0]->k == K::AND && e->ch[0]->ch.size() <= 64) {
          auto& S = e->ch[0]->ch;
          bool drop = false; unsigned rm = 0;
          for (E x : S) {
            if (has(v, x)) rm++;
            else if (x->neg && has(v, x->neg)) { drop = true; break; }
          }
          if (drop) { changed = true; continue; }
          if (rm) {
            std::vector<E> rest;
            for (E x : S) if (!has(v, x)) rest.push_back(x);
            E ne = mkNot(mkAndV(rest));
            changed = true;
            if (isF(ne)) return F();
            nv.push_back(ne);
            continue;
          }
        } else if (e->k == K::ITE && e->w == 1) {
          E c = e->ch[0];
          if (has(v, c)) { nv.push_back(e->ch[1]); changed = true; continue; }
          if (c->neg && has(v, c->neg)) { nv.push_back(e->ch[2]); changed = true; continue; }
        } else if (e->k == K::NOT && e->ch[0]->k == K::ITE) {
          E c = e->ch[0]->ch[0];
          if (has(v, c)) { nv.push_back(mkNot(e->ch[0]->ch[1])); changed = true; continue; }
          if (c->neg && has(v, c->neg)) { nv.push_back(mkNot(e->ch[0]->ch[2])); changed = true; continue; }
        }
        nv.push_back(e);
      }
      if (changed && round < 8) { in = std::move(nv); continue; }
      if (changed) v = std::move(nv), std::sort(v.begin(), v.end(), idlt), v.erase(std::unique(v.begin(), v.end()), v.end());
    }
    break;
  }
  // round limit may leave nested ANDs; flatten once more without simplification
  std::vector<E> f;
  for (E e : v) { if (isF(e)) return F(); if (isT(e)) continue; if (e->k == K::AND) f.insert(f.end(), e->ch.begin(), e->ch.end()); else f.push_back(e); }
  std::sort(f.begin(), f.end(), idlt);
  f.erase(std::unique(f.begin(), f.end()), f.end());
  if (f.empty()) return T();
  if (f.size() == 1) return f[0];
  for (E e : f) if (e->neg && has(f, e->neg)) return F();
  return mk(K::AND, 1, f);
}
E mkAnd(E a, E b) {
  if (a == b) return a;
  if (isT(a)) return b;
  if (isT(b)) return a;
  if (isF(a) || isF(b)) return F();
  if (a->neg == b) return F();
  return mkAndV({a, b});
}
static E or2(E a, E b) { return mkNot(mkAnd(mkNot(a), mkNot(b))); }
E mkOr(E a, E b) {
  if (a == b) return a;
  if (isF(a)) return b;
  if (isF(b)) return a;
  if (isT(a) || isT(b)) return T();
  if (a->neg == b) return T();
  if (a->k == K::AND || b->k == K::AND) {
    std::vector<E> la, lb;
    literals(a, la); literals(b, lb);
    std::vector<E> common, ra, rb;
    std::set_intersection(la.begin(), la.end(), lb.begin(), lb.end(), std::back_inserter(common), idlt);
    if (!common.empty()) {
      std::set_difference(la.begin(), la.end(), common.begin(), common.end(), std::back_inserter(ra), idlt);
      std::set_difference(lb.begin(), lb.end(), common.begin(), common.end(), std::back_inserter(rb), idlt);
      if (ra.empty() || rb.empty()) return mkAndV(common);
      E inner = mkOr(mkAndV(ra), mkAndV(rb));
      common.push_back(inner);
      return mkAndV(common);
    }
  }
  return or2(a, b);
}
E mkOrV(const std::vector<E>& v) {
  if (v.empty()) return F();
  // balanced, with factoring
  std::vector<E> cur = v;
  while (cur.size() > 1) {
    std::vector<E> nx;
    for (size_t i = 0; i + 1 < cur.size(); i += 2) nx.push_back(mkOr(cur[i], cur[i + 1]));
    if (cur.size() & 1) nx.push_back(cur.back());
    cur.swap(nx);
  }
  return cur[0];
}
E factorCond(E a, E o) {
  if (isT(a) || isT(o)) return a;
  std::vector<E> la, lb, ra;
  literals(a, la); literals(o, lb);
  std::set_difference(la.begin(), la.end(), lb.begin(), lb.end(), std::back_inserter(ra), idlt);
  if (ra.size() == la.size()) return a;
  return mkAndV(ra);
}
E mkSet(std::vector<std::pair<u128, E>> items, unsigned w) {
  std::map<u128, std::vector<E>> m;
  for (auto& it : items) { if (!isF(it.second)) m[it.first & maskw(w)].push_back(it.second); }
  if (m.empty()) return mkConst(items.empty() ? 0 : items[0].first, w);
  if (m.size() == 1) return mkConst(m.begin()->first, w);
  Expr e; e.k = K::SET; e.w = w; e.lo = 0; e.c = 0;
  for (auto& p : m) {
    E g = mkOrV(p.second);
    if (isT(g)) return mkConst(p.first, w);
    e.vals.push_back(p.first); e.ch.push_back(g);
  }
  return intern(e);
}
static bool isSetC(E e) { return e->k == K::SET || e->k == K::CONST; }
static bool leaves_(E e, std::vector<std::pair<u128, E>>& out, unsigned cap);
bool leaves(E e, std::vector<std::pair<u128, E>>& out, unsigned cap) {
  if (e->k != K::ITE) return leaves_(e, out, cap);
  static std::map<std::pair<uint32_t, unsigned>, std::pair<bool, std::vector<std::pair<u128, E>>>> memo;
  auto key = std::make_pair(e->id, cap);
  auto it = memo.find(key);
  if (it == memo.end()) {
    std::vector<std::pair<u128, E>> v; bool ok = leaves_(e, v, cap);
    if (ok) { // merge duplicates
      std::map<u128, std::vector<E>> m; for (auto& p : v) m[p.first].push_back(p.second);
      if (m.size() < v.size()) { v.clear(); for (auto& p : m) v.push_back({p.first, mkOrV(p.second)}); }
    } else v.clear();
    it = memo.emplace(key, std::make_pair(ok, std::move(v))).first;
  }
  if (!it->second.first) return false;
  out.insert(out.end(), it->second.second.begin(), it->second.second.end());
  return out.size() <= cap;
}
static bool leaves_(E e, std::vector<std::pair<u128, E>>& out, unsigned cap) {
  if (e->k == K::CONST) { out.push_back({e->c, T()}); return true; }
  if (e->k == K::SET) { for (size_t i = 0; i < e->ch.size(); i++) out.push_back({e->vals[i], e->ch[i]}); return out.size() <= cap; }
  if (e->k == K::ITE && e->w > 1) {
    std::vector<std::pair<u128, E>> a, b;
    if (!leaves(e->ch[1], a, cap) || !leaves(e->ch[2], b, cap)) return false;
    for (auto& p : a) { E g = mkAnd(e->ch[0], p.second); if (!isF(g)) out.push_back({p.first, g}); }
    E n = mkNot(e->ch[0]);
    for (auto& p : b) { E g = mkAnd(n, p.second); if (!isF(g)) out.push_back({p.first, g}); }
    return out.size() <= cap;
  }
  return false;
}
E mkIte(E c, E a, E b) {
  if (a == b) return a;
  if (isT(c)) return a;
  if (isF(c)) return b;
  if (a->w == 1) {
    if (isT(a)) return mkOr(c, b);
    if (isF(a)) return mkAnd(mkNot(c), b);
    if (isT(b)) return mkOr(mkNot(c), a);
    if (isF(b)) return mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
    if (a->neg == c && c) return mkAnd(mkNot(c), b);
    if (b->neg == c && c) return mkOr(mkNot(c), a);
    if (c->k == K::NOT) return mkIte(c->ch[0], b, a);
    if (a->k == K::ITE && a->ch[0] == c) a = a->ch[1];
    if (b->k == K::ITE && b->ch[0] == c) b = b->ch[2];
    if (a == b) return a;
    if (a->neg == b) { /* xnor */ }
    // factor common conjuncts
    if (a->k == K::AND || b->k == K::AND) {
      std::vector<E> la, lb, cm;
      literals(a, la); literals(b, lb);
      std::set_intersection(la.begin(), la.end(), lb.begin(), lb.end(), std::back_inserter(cm), idlt);
      if (!cm.empty()) {
        std::vector<E> ra, rb;
        std::set_difference(la.begin(), la.end(), cm.begin(), cm.end(), std::back_inserter(ra), idlt);
        std::set_difference(lb.begin(), lb.end(), cm.begin(), cm.end(), std::back_inserter(rb), idlt);
        cm.push_back(mkIte(c, mkAndV(ra), mkAndV(rb)));
        return mkAndV(cm);
      }
    }
    return mk(K::ITE, 1, {c, a, b});
  }
  if (isSetC(a) && isSetC(b)) {
    size_t na = a->k == K::SET ? a->ch.size() : 1, nb = b->k == K::SET ? b->ch.size() : 1;
    if (na + nb <= SETCAP) {
      std::map<u128, std::pair<E, E>> m;
      if (a->k == K::SET) for (size_t i = 0; i < na; i++) m[a->vals[i]] = {a->ch[i], nullptr};
      else m[a->c] = {T(), nullptr};
      if (b->k == K::SET) for (size_t i = 0; i < nb; i++) m[b->vals[i]].second = b->ch[i];
      else m[b->c].second = T();
      E nc = mkNot(c);
      std::vector<std::pair<u128, E>> items;
      for (auto& p : m) {
        E g;
        if (p.second.first && p.second.second) g = mkIte(c, p.second.first, p.second.second);
        else if (p.second.first) g = mkAnd(c, p.second.first);
        else g = mkAnd(nc, p.second.second);
        items.push_back({p.first, g});
      }
      return mkSet(std::move(items), a->w);
    }
  }
  if (c->k == K::NOT) return mkIte(c->ch[0], b, a);
  if (a->k == K::ITE && a->ch[0] == c) a = a->ch[1];
  if (b->k == K::ITE && b->ch[0] == c) b = b->ch[2];
  if (a == b) return a;
  return mk(K::ITE, a->w, {c, a, b});
}
template <class Fn> static E distribute(E a, E b, unsigned w, Fn fn) {
  // a,b are SET/CONST
  std::vector<std::pair<u128, E>> items;
  size_t na = a->k == K::SET ? a->ch.size() : 1, nb = b->k == K::SET ? b->ch.size() : 1;
  if (na * nb > 4096) return nullptr;
  for (size_t i = 0; i < na; i++) for (size_t j = 0; j < nb; j++) {
    u128 x = a->k == K::SET ? a->vals[i] : a->c, y = b->k == K::SET ? b->vals[j] : b->c;
    E g = mkAnd(a->k == K::SET ? a->ch[i] : T(), b->k == K::SET ? b->ch[j] : T());
    if (isF(g)) continue;
    items.push_back({fn(x, y) & maskw(w), g});
  }
  if (w == 1) {
    std::vector<E> t, f;
    for (auto& p : items) (p.first ? t : f).push_back(p.second);
    if (f.empty()) return T();
    if (t.empty()) return F();
    // one-hot semantics: either polarity works; use the shorter
    return t.size() <= f.size() ? mkOrV(t) : mkNot(mkOrV(f));
  }
  std::map<u128, int> distinct;
  for (auto& p : items) distinct[p.first]++;
  if (distinct.size() > SETCAP) return nullptr;
  if (items.empty()) return mkConst(0, w);
  return mkSet(std::move(items), w);
}
static E mkEq_(E a, E b);
E mkEq(E a, E b) {
  if (a->k != K::ITE && b->k != K::ITE) return mkEq_(a, b);
  static std::unordered_map<uint64_t, E> memo; uint64_t k = ((uint64_t)a->id << 32) | b->id;
  auto it = memo.find(k); if (it != memo.end()) return it->second;
  E r = mkEq_(a, b); memo[k] = r; return r;
}
static E mkEq_(E a, E b) {
  if (a == b) return T();
  if (a->w == 1) {
    if (isC(a)) return isT(a) ? b : mkNot(b);
    if (isC(b)) return isT(b) ? a : mkNot(a);
    return mkIte(a, b, mkNot(b));
  }
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (isSetC(a) && isSetC(b)) {
    std::vector<E> t; 
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { for (size_t i = 0; i < a->ch.size(); i++) if (a->vals[i] == b->c) return a->ch[i]; return F(); }
    E r = distribute(a, b, 1, [](u128 x, u128 y) { return (u128)(x == y); });
    if (r) return r;
  }
  // ITE with constant leaf compare
  if (isC(a)) std::swap(a, b);
  if (isC(b) && a->k == K::ITE) return mkIte(a->ch[0], mkEq(a->ch[1], b), mkEq(a->ch[2], b));
  if (isC(b) && a->k == K::ZEXT) {
    unsigned w0 = a->ch[0]->w;
    if (b->c & ~maskw(w0)) return F();
    return mkEq(a->ch[0], mkConst(b->c, w0));
  }
  if (isC(b) && a->k == K::LIN && a->ch.size() == 1 && a->vals[0] == 1) return mkEq(a->ch[0], mkConst(b->c - a->c, a->w));
  if (!isC(b) && (a->k == K::LIN || b->k == K::LIN)) {
    E d = mkSub(a, b);
    if (isC(d)) return mkBool(d->c == 0);
    // case split over alternatives inside products with large constants, so that equal quotients cancel
    if (d->k == K::LIN && d->w >= 48 && d->ch.size() <= 6) {
      bool big = false; E g = nullptr;
      for (size_t i = 0; i < d->ch.size(); i++) { u128 v = d->vals[i], n = ((u128)0 - v) & maskw(d->w); if (v > 255 && n > 255) big = true; if (d->ch[i]->k == K::ITE && !g) g = d->ch[i]->ch[0]; }
      if (big && g) {
        E alt[2];
        for (int side = 0; side < 2; side++) {
          E r = mkConst(d->c, d->w);
          for (size_t i = 0; i < d->ch.size(); i++) { E c = d->ch[i]; if (c->k == K::ITE && c->ch[0] == g) c = c->ch[1 + side]; r = mkAdd(r, mkMul(c, mkConst(d->vals[i], d->w))); }
          alt[side] = mkEq(r, mkConst(0, d->w));
        }
        return mkIte(g, alt[0], alt[1]);
      }
    }
  }
  if (a->id > b->id) std::swap(a, b);
  return mk(K::EQ, 1, {a, b});
}
static E mkUlt_(E a, E b);
E mkUlt(E a, E b) {
  if (a->k != K::ITE && b->k != K::ITE) return mkUlt_(a, b);
  static std::unordered_map<uint64_t, E> memo; uint64_t k = ((uint64_t)a->id << 32) | b->id;
  auto it = memo.find(k); if (it != memo.end()) return it->second;
  E r = mkUlt_(a, b); memo[k] = r; return r;
}
static E mkUlt_(E a, E b) {
  if (a == b) return F();
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && b->c == 0) return F();
  if (isC(a) && a->c == maskw(a->w)) return F();
  if (isSetC(a) && isSetC(b)) { E r = distribute(a, b, 1, [](u128 x, u128 y) { return (u128)(x < y); }); if (r) return r; }
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, a->w));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
  if (a->k == K::ITE && isC(b)) return mkIte(a->ch[0], mkUlt(a->ch[1], b), mkUlt(a->ch[2], b));
  if (b->k == K::ITE && isC(a)) return mkIte(b->ch[0], mkUlt(a, b->ch[1]), mkUlt(a, b->ch[2]));
  return mk(K::ULT, 1, {a, b});
}
static E mkSlt_(E a, E b);
E mkSlt(E a, E b) {
  if (a->k != K::ITE && b->k != K::ITE) return mkSlt_(a, b);
  static std::unordered_map<uint64_t, E> memo; uint64_t k = ((uint64_t)a->id << 32) | b->id;
  auto it = memo.find(k); if (it != memo.end()) return it->second;
  E r = mkSlt_(a, b); memo[k] = r; return r;
}
static E mkSlt_(E a, E b) {
  if (a == b) return F();
  unsigned w = a->w;
  if (w == 1) return mkAnd(a, mkNot(b));
  if (isSetC(a) && isSetC(b)) { E r = distribute(a, b, 1, [w](u128 x, u128 y) { return (u128)(sx(x, w) < sx(y, w)); }); if (r) return r; }
  if (a->k == K::ITE && isC(b)) return mkIte(a->ch[0], mkSlt(a->ch[1], b), mkSlt(a->ch[2], b));
  if (b->k == K::ITE && isC(a)) return mkIte(b->ch[0], mkSlt(a, b->ch[1]), mkSlt(a, b->ch[2]));
  if (isC(b) && b->c == 0 && a->k == K::ZEXT) return F();
  return mk(K::SLT, 1, {a, b});
}
// ---- linear forms
static void linAdd(std::map<uint32_t, std::pair<E, u128>>& m, u128& c, E e, u128 k) {
  if (isC(e)) { c += e->c * k; return; }
  if (e->k == K::LIN) { c += e->c * k; for (size_t i = 0; i < e->ch.size(); i++) { auto& p = m[e->ch[i]->id]; p.first = e->ch[i]; p.second += e->vals[i] * k; } return; }
  auto& p = m[e->id]; p.first = e; p.second += k;
}
static E linMake(std::map<uint32_t, std::pair<E, u128>>& m, u128 c, unsigned w) {
  Expr e; e.k = K::LIN; e.w = w; e.lo = 0; e.c = c & maskw(w);
  for (auto& p : m) { u128 k = p.second.second & maskw(w); if (k) { e.ch.push_back(p.second.first); e.vals.push_back(k); } }
  if (e.ch.empty()) return mkConst(c, w);
  if (e.ch.size() == 1 && e.vals[0] == 1 && e.c == 0) return e.ch[0];
  // a lone set scaled/offset stays a set
  if (e.ch.size() == 1 && e.ch[0]->k == K::SET) {
    std::vector<std::pair<u128, E>> it;
    for (size_t i = 0; i < e.ch[0]->ch.size(); i++) it.push_back({e.ch[0]->vals[i] * e.vals[0] + e.c, e.ch[0]->ch[i]});
    return mkSet(it, w);
  }
  return intern(e);
}
static E linComb_(E a, u128 ka, E b, u128 kb);
static E linComb(E a, u128 ka, E b, u128 kb) {
  if (a->k != K::ITE && b->k != K::ITE) return linComb_(a, ka, b, kb);
  static std::map<std::tuple<uint64_t, u128, u128>, E> memo;
  auto key = std::make_tuple(((uint64_t)a->id << 32) | b->id, ka, kb);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r = linComb_(a, ka, b, kb); memo[key] = r; return r;
}
static E linComb_(E a, u128 ka, E b, u128 kb) {
  unsigned w = a->w;
  if (isSetC(a) && isSetC(b)) { E r = distribute(a, b, w, [=](u128 x, u128 y) { return x * ka + y * kb; }); if (r) return r; }
  // ITE of const/sets with const: push in
  auto pushable = [](E x) { return x->k == K::ITE && (isSetC(x->ch[1]) || isSetC(x->ch[2])); };
  if (isC(b) && pushable(a)) return mkIte(a->ch[0], linComb(a->ch[1], ka, b, kb), linComb(a->ch[2], ka, b, kb));
  if (isC(a) && pushable(b)) return mkIte(b->ch[0], linComb(a, ka, b->ch[1], kb), linComb(a, ka, b->ch[2], kb));
  std::map<uint32_t, std::pair<E, u128>> m; u128 c = 0;
  linAdd(m, c, a, ka); linAdd(m, c, b, kb);
  return linMake(m, c, w);
}
E mkAdd(E a, E b) { if (a->w == 1) return mkNot(mkEq(a, b)); return linComb(a, 1, b, 1); }
E mkSub(E a, E b) { if (a->w == 1) return mkNot(mkEq(a, b)); return linComb(a, 1, b, ~(u128)0); }
E mkMul(E a, E b) {
  unsigned w = a->w;
  if (w == 1) return mkAnd(a, b);
  if (isSetC(a) && isSetC(b)) { E r = distribute(a, b, w, [](u128 x, u128 y) { return x * y; }); if (r) return r; }
  if (isC(a)) std::swap(a, b);
  if (isC(b)) return linComb(a, b->c, mkConst(0, w), 0);
  return mk(K::MUL, w, {a, b});
}
static u128 foldBin(K k, u128 x, u128 y, unsigned w) {
  switch (k) {
    case K::UDIV: return y ? x / y : maskw(w);
    case K::UREM: return y ? x % y : x;
    case K::SDIV: { i128 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : maskw(w); if (b == -1) return (u128)0 - (u128)a; return (u128)(a / b); }
    case K::SREM: { i128 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b); }
    case K::SHL: return y >= w ? 0 : x << (unsigned)y;
    case K::LSHR: return y >= w ? 0 : (x & maskw(w)) >> (unsigned)y;
    case K::ASHR: { i128 a = sx(x, w); return (u128)(a >> (unsigned)(y >= w ? w - 1 : y)); }
    case K::BAND: return x & y;
    case K::BOR: return x | y;
    case K::BXOR: return x ^ y;
    default: abort();
  }
}
static E mkBin_(K k, E a, E b);
E mkBin(K k, E a, E b) {
  if (a->k != K::ITE && b->k != K::ITE) return mkBin_(k, a, b);
  struct KK { uint64_t x, y; bool operator==(const KK& o) const { return x == o.x && y == o.y; } };
  struct HK { size_t operator()(const KK& k) const { return hmix(k.x * 0x9e3779b97f4a7c15ull, k.y); } };
  static std::unordered_map<KK, E, HK> memo;
  KK key{(uint64_t)k, ((uint64_t)a->id << 32) | b->id};
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r = mkBin_(k, a, b); memo[key] = r; return r;
}
static E mkBin_(K k, E a, E b) {
  unsigned w = a->w;
  if (w == 1) {
    switch (k) {
      case K::BAND: return mkAnd(a, b);
      case K::BOR: return mkOr(a, b);
      case K::BXOR: return mkNot(mkEq(a, b));
      default: break;
    }
  }
  if (isSetC(a) && isSetC(b)) { E r = distribute(a, b, w, [=](u128 x, u128 y) { return foldBin(k, x, y, w) & maskw(w); }); if (r) return r; }
  if (isC(b)) {
    switch (k) {
      case K::BAND: if (b->c == 0) return b; if (b->c == maskw(w)) return a; break;
      case K::BOR: if (b->c == 0) return a; if (b->c == maskw(w)) return b; break;
      case K::BXOR: if (b->c == 0) return a; break;
      case K::SHL: if (b->c == 0) return a; if (b->c < w) return mkMul(a, mkConst((u128)1 << (unsigned)b->c, w)); break;
      case K::LSHR: if (b->c == 0) return a; if (b->c < w) return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w); break;
      case K::ASHR: if (b->c == 0) return a; break;
      case K::UDIV: case K::SDIV: if (b->c == 1) return a; break;
      case K::UREM: if (b->c == 1) return mkConst(0, w);
        if (b->c && !(b->c & (b->c - 1))) return mkBin(K::BAND, a, mkConst(b->c - 1, w)); break;
      default: break;
    }
    if (a->k == K::ITE) return mkIte(a->ch[0], mkBin(k, a->ch[1], b), mkBin(k, a->ch[2], b));
    if (k == K::BAND) {
      u128 m = b->c; // low mask
      if ((m & (m + 1)) == 0) { unsigned n = 0; while (m >> n) n++; return mkZext(mkExtract(a, 0, n), w); }
      if (!(m & (m - 1))) { unsigned n = 0; while (!((m >> n) & 1)) n++; E bit = mkExtract(a, n, 1); return mkIte(bit, b, mkConst(0, w)); }
    }
    if (k == K::SREM) return mkSub(a, mkMul(mkBin(K::SDIV, a, b), b));
    if (k == K::UREM) return mkSub(a, mkMul(mkBin(K::UDIV, a, b), b));
  }
  if (isC(a) && (k == K::BAND || k == K::BOR || k == K::BXOR)) return mkBin(k, b, a);
  if (a == b) {
    if (k == K::BAND || k == K::BOR) return a;
    if (k == K::BXOR) return mkConst(0, w);
  }
  if ((k == K::BAND || k == K::BOR || k == K::BXOR) && a->id > b->id) std::swap(a, b);
  return mk(k, w, {a, b});
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  if (hi->k == K::EXTRACT && lo->k == K::EXTRACT && hi->ch[0] == lo->ch[0] && hi->lo == lo->lo + lo->w)
    return mkExtract(hi->ch[0], lo->lo, w);
  if (isSetC(hi) && isSetC(lo) && hi->w > 1 && lo->w > 1) {
    unsigned lw = lo->w;
    E r = distribute(hi, lo, w, [lw](u128 x, u128 y) { return (x << lw) | y; });
    if (r) return r;
  }
  return mk(K::CONCAT, w, {hi, lo});
}
static E mkExtract_(E a, unsigned lo, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w) {
  if (isC(a) || a->k == K::VAR) return mkExtract_(a, lo, w);
  struct KK { uint64_t x, y; bool operator==(const KK& o) const { return x == o.x && y == o.y; } };
  struct HK { size_t operator()(const KK& k) const { return hmix(k.x * 0x9e3779b97f4a7c15ull, k.y); } };
  static std::unordered_map<KK, E, HK> memo;
  KK key{a->id, ((uint64_t)lo << 32) | w};
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r = mkExtract_(a, lo, w); memo[key] = r; return r;
}
static E mkExtract_(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (a->k == K::SET) {
    if (w == 1) {
      std::vector<E> t, f;
      for (size_t i = 0; i < a->ch.size(); i++) (((a->vals[i] >> lo) & 1) ? t : f).push_back(a->ch[i]);
      if (f.empty()) return T();
      if (t.empty()) return F();
      return t.size() <= f.size() ? mkOrV(t) : mkNot(mkOrV(f));
    }
    std::vector<std::pair<u128, E>> it;
    for (size_t i = 0; i < a->ch.size(); i++) it.push_back({(a->vals[i] >> lo) & maskw(w), a->ch[i]});
    return mkSet(it, w);
  }
  switch (a->k) {
    case K::EXTRACT: return mkExtract(a->ch[0], a->lo + lo, w);
    case K::ZEXT: {
      unsigned w0 = a->ch[0]->w;
      if (lo >= w0) return mkConst(0, w);
      if (lo + w <= w0) return mkExtract(a->ch[0], lo, w);
      return mkZext(mkExtract(a->ch[0], lo, w0 - lo), w);
    }
    case K::SEXT: { unsigned w0 = a->ch[0]->w; if (lo + w <= w0) return mkExtract(a->ch[0], lo, w); break; }
    case K::CONCAT: {
      unsigned lw = a->ch[1]->w;
      if (lo >= lw) return mkExtract(a->ch[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->ch[1], lo, w);
      return mkConcat(mkExtract(a->ch[0], 0, lo + w - lw), mkExtract(a->ch[1], lo, lw - lo));
    }
    case K::ITE: return mkIte(a->ch[0], mkExtract(a->ch[1], lo, w), mkExtract(a->ch[2], lo, w));
    case K::LIN: if (lo == 0 && w > 1) {
      E r = mkConst(a->c, w);
      for (size_t i = 0; i < a->ch.size(); i++) r = mkAdd(r, mkMul(mkExtract(a->ch[i], 0, w), mkConst(a->vals[i], w)));
      return r;
    } break;
    case K::BAND: case K::BOR: case K::BXOR: return mkBin(a->k, mkExtract(a->ch[0], lo, w), mkExtract(a->ch[1], lo, w));
    default: break;
  }
  return mk(K::EXTRACT, w, {a}, lo);
}
static E mkZext_(E a, unsigned w);
E mkZext(E a, unsigned w) {
  if (a->k != K::ITE) return mkZext_(a, w);
  struct KK { uint64_t x, y; bool operator==(const KK& o) const { return x == o.x && y == o.y; } };
  struct HK { size_t operator()(const KK& k) const { return hmix(k.x * 0x9e3779b97f4a7c15ull, k.y); } };
  static std::unordered_map<KK, E, HK> memo;
  KK key{a->id, w};
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r = mkZext_(a, w); memo[key] = r; return r;
}
static E mkZext_(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->w == 1) return mkSet({{1, a}, {0, mkNot(a)}}, w);
  if (a->k == K::SET) { std::vector<std::pair<u128, E>> it; for (size_t i = 0; i < a->ch.size(); i++) it.push_back({a->vals[i], a->ch[i]}); return mkSet(it, w); }
  if (a->k == K::ZEXT) return mkZext(a->ch[0], w);
  if (a->k == K::ITE) return mkIte(a->ch[0], mkZext(a->ch[1], w), mkZext(a->ch[2], w));
  return mk(K::ZEXT, w, {a});
}
static E mkSext_(E a, unsigned w);
E mkSext(E a, unsigned w) {
  if (a->k != K::ITE) return mkSext_(a, w);
  struct KK { uint64_t x, y; bool operator==(const KK& o) const { return x == o.x && y == o.y; } };
  struct HK { size_t operator()(const KK& k) const { return hmix(k.x * 0x9e3779b97f4a7c15ull, k.y); } };
  static std::unordered_map<KK, E, HK> memo;
  KK key{a->id, w};
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  E r = mkSext_(a, w); memo[key] = r; return r;
}
static E mkSext_(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
  if (a->w == 1) return mkSet({{maskw(w), a}, {0, mkNot(a)}}, w);
  if (a->k == K::SET) { std::vector<std::pair<u128, E>> it; for (size_t i = 0; i < a->ch.size(); i++) it.push_back({(u128)sx(a->vals[i], a->w) & maskw(w), a->ch[i]}); return mkSet(it, w); }
  if (a->k == K::ZEXT) return mkZext(a->ch[0], w);
  if (a->k == K::SEXT) return mkSext(a->ch[0], w);
  if (a->k == K::ITE) return mkIte(a->ch[0], mkSext(a->ch[1], w), mkSext(a->ch[2], w));
  return mk(K::SEXT, w, {a});
}
u128 Evaluator::operator()(E root) {
  auto f = memo.find(root);
  if (f != memo.end()) return f->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo.count(e)) { st.pop_back(); continue; }
    bool ready = true;
    for (E c : e->ch) if (!memo.count(c)) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back();
    auto v = [&](int i) { return memo[e->ch[i]]; };
    u128 r = 0;
    switch (e->k) {
      case K::CONST: r = e->c; break;
      case K::VAR: r = var(e) & maskw(e->w); break;
      case K::NOT: r = !v(0); break;
      case K::AND: { r = 1; for (E c : e->ch) r &= memo[c]; break; }
      case K::ITE: r = v(0) ? v(1) : v(2); break;
      case K::SET: { r = e->vals.back(); for (size_t i = 0; i < e->ch.size(); i++) if (memo[e->ch[i]]) { r = e->vals[i]; break; } break; }
      case K::EQ: r = v(0) == v(1); break;
      case K::ULT: r = v(0) < v(1); break;
      case K::SLT: r = sx(v(0), e->ch[0]->w) < sx(v(1), e->ch[0]->w); break;
      case K::LIN: { r = e->c; for (size_t i = 0; i < e->ch.size(); i++) r += memo[e->ch[i]] * e->vals[i]; r &= maskw(e->w); break; }
      case K::MUL: r = (v(0) * v(1)) & maskw(e->w); break;
      case K::CONCAT: r = (v(0) << e->ch[1]->w) | v(1); break;
      case K::EXTRACT: r = (v(0) >> e->lo) & maskw(e->w); break;
      case K::ZEXT: r = v(0); break;
      case K::SEXT: r = (u128)sx(v(0), e->ch[0]->w) & maskw(e->w); break;
      default: r = foldBin(e->k, v(0), v(1), e->w) & maskw(e->w);
    }
    memo[e] = r;
  }
  return memo[root];
}
std::string str(E e, int d) {
  char b[64];
  static const char* nm[] = {"c","v","!","&","ite","set","==","u<","s<","lin","*","/u","%u","/s","%s","<<",">>u",">>s","band","bor","bxor","cat","ext","zx","sx"};
  if (isC(e)) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->k == K::VAR) return e->name;
  if (d == 0) { snprintf(b, 64, "#%u", e->id); return b; }
  std::string s = std::string("(") + nm[(int)e->k];
  for (size_t i = 0; i < e->ch.size(); i++) { s += " "; if (e->vals.size()) { snprintf(b, 64, "%llx@", (unsigned long long)e->vals[i]); s += b; } s += str(e->ch[i], d - 1); }
  return s + ")";
}
}
