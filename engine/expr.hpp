// Hash-consed bit-vector/boolean expressions with guarded value sets.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <functional>

namespace vx {
typedef unsigned __int128 u128;
typedef __int128 i128;

enum class K : uint8_t { CONST, VAR, NOT, AND, ITE, SET, EQ, ULT, SLT, LIN, MUL, UDIV, UREM, SDIV, SREM,
  SHL, LSHR, ASHR, BAND, BOR, BXOR, CONCAT, EXTRACT, ZEXT, SEXT };

struct Expr {
  uint32_t id;
  K k;
  uint16_t w;          // 1 = bool
  uint32_t lo;         // EXTRACT
  u128 c;              // CONST value / LIN constant
  std::vector<const Expr*> ch;
  std::vector<u128> vals;   // SET values / LIN coefficients
  std::string name;    // VAR
  mutable const Expr* neg = nullptr;
  size_t hash;
  uint32_t depth = 0;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s) - s);
}

E mkConst(u128 v, unsigned w);
inline E mkBool(bool b) { return mkConst(b ? 1 : 0, 1); }
E T(); E F();
E mkVar(const std::string& name, unsigned w);
E mkNot(E a);
E mkAndV(std::vector<E> v);
E mkAnd(E a, E b);
E mkOrV(const std::vector<E>& v);
E mkOr(E a, E b);
inline E mkImp(E a, E b) { return mkOr(mkNot(a), b); }
E mkIte(E c, E a, E b);
E mkSet(std::vector<std::pair<u128, E>> items, unsigned w);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkBin(K k, E a, E b);   // UDIV.. BXOR
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
inline bool isC(E e) { return e->k == K::CONST; }
inline bool isT(E e) { return e->k == K::CONST && e->c == 1; }
inline bool isF(E e) { return e->k == K::CONST && e->c == 0; }
// enumerate leaves of a CONST/SET (also through ITE); returns false if not enumerable
bool leaves(E e, std::vector<std::pair<u128, E>>& out, unsigned cap = 512);
// conjunct-level implication helpers
void literals(E g, std::vector<E>& out);
E factorCond(E a, E other);      // literals of a not shared with `other`
size_t numExprs();
std::string str(E e, int depth = 3);

struct Evaluator {
  std::function<u128(E)> var;
  std::unordered_map<E, u128> memo;
  u128 operator()(E e);
};
}
