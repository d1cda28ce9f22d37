#pragma once
#include "expr.hpp"
#ifdef VX_Z3
#include "solver.hpp"
#else
#include "satsolver.hpp"
#endif
#include <memory>
#include <set>
#include <optional>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/ADT/BitVector.h>

namespace vx {
using namespace llvm;
typedef uint64_t u64;

template <class T> struct Ref {   // intrusive, single-threaded
  T* p = nullptr;
  Ref() {}
  explicit Ref(T* q) : p(q) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
  bool operator==(const Ref& o) const { return p == o.p; }
};

struct Cell { uint32_t off, sz; E v; };
enum ObjKind : uint8_t { OGLOBAL, OSTACK, OHEAP, OMODEL };
struct Obj {
  int rc = 0;
  u64 base = 0, size = 0;
  E alive = nullptr;
  ObjKind kind = OGLOBAL;
  bool ghost = false, zero = false;
  int tid = -1;
  std::vector<Cell> cells;
  const Value* site = nullptr;
};
typedef Ref<Obj> ObjP;

// symbolic sets of concrete event ids (happens-before machinery)
typedef std::map<int, E> EvSet;
struct Acc { EvSet w, r, aw, ar; };
struct HB {
  int rc = 0;
  std::map<int, EvSet> thr, pend, rel;   // per thread: happened-before, pending acquire, release fence
  std::map<u64, EvSet> sync;             // per sync location
  std::map<std::pair<u64, unsigned>, Acc> acc; // per (addr,size)
};

struct Mem {
  std::vector<std::pair<u64, ObjP>> o;   // sorted by base
  Ref<HB> hb;
  int find(u64 a) const {
    auto it = std::upper_bound(o.begin(), o.end(), a, [](u64 x, const std::pair<u64, ObjP>& p) { return x < p.first; });
    if (it == o.begin()) return -1;
    --it;
    return (int)(it - o.begin());
  }
  Obj& wr(int i) {
    if (o[i].second->rc > 1) { Obj* n = new Obj(*o[i].second); n->rc = 0; o[i].second = ObjP(n); }
    return *o[i].second;
  }
  void add(ObjP p) {
    auto it = std::lower_bound(o.begin(), o.end(), p->base, [](const std::pair<u64, ObjP>& q, u64 x) { return q.first < x; });
    if (it != o.end() && it->first == p->base) it->second = p; else o.insert(it, {p->base, p});
  }
  void del(u64 base) {
    auto it = std::lower_bound(o.begin(), o.end(), base, [](const std::pair<u64, ObjP>& q, u64 x) { return q.first < x; });
    if (it != o.end() && it->first == base) o.erase(it);
  }
  HB& hbw() { if (!hb) hb = Ref<HB>(new HB); else if (hb->rc > 1) { HB* n = new HB(*hb); n->rc = 0; hb = Ref<HB>(n); } return *hb; }
};

struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; };

struct LoopPos { int loop; int ord; };
struct BlockInfo { std::vector<LoopPos> loops; int ord; BasicBlock* bb; std::vector<Instruction*> insts; int firstNonPhi; BitVector liveIn, liveOut; };
struct FnInfo {
  int id; Function* f; std::vector<BlockInfo> blocks;
  std::unordered_map<const BasicBlock*, int> bidx;
  std::unordered_map<const Value*, int> slot; int nslots = 0;
  std::vector<int> loopHeader;  // loop -> block idx
  std::map<std::pair<int,int>, BitVector> liveCache;
};
struct Frame {
  FnInfo* fi; int b = 0, i = 0; std::vector<Val> regs; std::vector<int> iters; u64 chain = 0; std::vector<u64> allocas; int phase = 0;
};
struct State {
  E guard; Mem mem; std::vector<Frame> frames; int tid = 0; E symTid = nullptr; bool resumed = false;
};
typedef std::vector<int> Key;

struct Park { Key key; E guard; std::vector<Frame> frames; };

struct Viol { int step; E cond; std::string kind, msg, loc; };
struct Ev { int step; E guard; std::string kind; std::vector<E> vals; };

struct Options {
  int K = 10, tail = 0, spurious = 0, clockBits = 16, eintr = 0, weakcas = 0; bool hb = false; bool prune = true; bool verbose = false; unsigned hardUnwind = 200000; unsigned softUnwind = 24;
  double budget = 600; unsigned cut = 16; int cutConf = 100; bool tspec = false, sym = false; std::set<std::string> ignore; std::string out; bool coverTraces = true; std::string logic = "QF_FD"; unsigned maxrec = 24;
};
}
