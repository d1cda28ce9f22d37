#pragma once
#include "core.hpp"
namespace vx {
struct Engine {
  Module& M; const DataLayout& DL; Options opt;
  Solver solver;
  std::chrono::steady_clock::time_point tstart = std::chrono::steady_clock::now();
  Engine(Module& m, Options o) : M(m), DL(m.getDataLayout()), opt(o), solver(o.logic.c_str()) {}
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count(); }

  // --- static info
  std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const GlobalValue*, u64> gaddr;
  std::map<u64, Function*> faddr;
  std::map<u64, const GlobalVariable*> gvaddr;
  std::map<u64, ObjP> constMem;
  Mem initMem;
  std::unordered_map<const Constant*, Val> constCache;
  std::set<std::string> funcsSeen;
  std::map<std::string, int> repoFuncs;
  u64 nInsts = 0, nStates = 0, nMerges = 0, nForks = 0;
  u64 nextStack = 0x700000000000ull, nextHeap = 0x500000000000ull, nextG = 0x10000000ull;
  std::map<std::tuple<int, u64, const Value*>, u64> stackAddr;
  std::map<std::tuple<int, u64, const Value*, u64, int>, u64> heapAddr;
  std::map<std::pair<u64, const Value*>, u64> chainIds;

  // --- run state
  enum Mode { SEQ, PRERUN, CONC } mode = SEQ;
  int step = -1; int nthreads = 0; int mainTid = 0;
  bool unlockSync = false; bool inTail = false;
  std::vector<std::map<Key, Park>> parks;
  E nowE = nullptr;          // current time (64-bit)
  E nowPrev = nullptr;
  std::vector<Viol> viols; std::vector<Viol> covers; std::vector<Ev> events;
  std::vector<E> stepKills;
  std::set<std::string> unsupportedSeen;
  std::map<Key, State> wl;
  std::map<Key, State> ends;
  int freshN = 0;
  int evBase = 0; static const int SEG = 16;   // happens-before events per step
  bool stop = false;
  std::map<std::string, u64> stats;

  E fresh(const char* p, unsigned w) { char b[64]; snprintf(b, 64, "%s%d_%d", p, step, freshN++); return mkVar(b, w); }
  // --- helpers
  FnInfo* info(Function* f);
  u64 addrOf(const GlobalValue* g);
  void initGlobals();
  void initConst(const Constant* c, Obj& o, u64 off);
  Val constVal(const Constant* c);
  Val get(State& s, const Value* v);
  E getE(State& s, const Value* v) { Val x = get(s, v); if (!x.e) { fprintf(stderr, "aggregate where scalar expected\n"); abort(); } return x.e; }
  void set(State& s, const Instruction* i, Val v);
  unsigned width(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
  unsigned msize(Type* t) { return (unsigned)DL.getTypeStoreSize(t); }

  // --- memory
  E readObj(Obj& o, u64 off, unsigned sz);
  void writeObj(Obj& o, u64 off, unsigned sz, E v);
  struct Tgt { int idx; Obj* cobj; u64 off; E g; u64 addr; };
  std::vector<Tgt> resolve(State& s, E addr, unsigned sz, const char* what);
  E loadInt(State& s, E addr, unsigned bytes, bool track = true);       // bits=8*bytes
  void storeInt(State& s, E addr, unsigned bytes, E v, bool track = true);
  E loadG(State& s, E addr, unsigned bytes) { return loadInt(s, addr, bytes, false); }
  void storeG(State& s, E addr, unsigned bytes, E v) { storeInt(s, addr, bytes, v, false); }
  Val loadTy(State& s, E addr, Type* t);
  void storeTy(State& s, E addr, Type* t, const Val& v);
  void copyMem(State& s, E dst, E src, u64 n);
  u64 allocHeap(State& s, u64 size, const Value* site, u64 zero = 0);
  void freeHeap(State& s, E p);
  ObjP mergeObj(E c, const ObjP& a, const ObjP& b);   // ite(c,a,b)
  void mergeMem(E c, Mem& a, const Mem& b, Mem& out);
  Val mergeVal(E c, const Val& a, const Val& b);
  void mergeState(State& a, State&& b);
  Ref<HB> mergeHB(E c, const Ref<HB>& a, const Ref<HB>& b);
  const BitVector& liveAt(FnInfo* fi, int b, int i);
  void pruneDead(State& s, std::vector<Frame>& fr);

  // --- HB
  int curEv(State& s);
  void hbBump(State& s);
  void hbAcquire(State& s, int tid, E loc, E cond);
  void hbRelease(State& s, int tid, E loc, E cond, bool merge = false);
  void hbAccess(State& s, u64 addr, unsigned sz, bool write, bool atomic, E cond);
  void hbAtomicRead(State& s, E p, unsigned n, AtomicOrdering o, E cond);
  void hbAtomicWrite(State& s, E p, unsigned n, AtomicOrdering o, E cond, bool rmw);

  // --- execution
  Key keyOf(const State& s, bool iters);
  Key keyOfFrames(const std::vector<Frame>& f, bool iters);
  void push(State&& s);
  void runWL();
  void exec(State& s);                 // run until pushed/ended
  void takeEdge(State& s, int to);
  bool enterLoopCheck(State& s);
  void pushFrame(State& s, Function* f, std::vector<Val> args, u64 chain);
  void popFrame(State& s);
  enum CallRes { NEXT, ENTERED, KILLED, PARKED, UNWIND, FORKED };
  CallRes doCall(State& s, CallBase* cb);
  CallRes callFn(State& s, CallBase* cb, Function* f);
  void finishCall(State& s, CallBase* cb, Val v);      // assign + advance
  bool doReturn(State& s, Val v);                      // false if thread done
  bool unwind(State& s, E exc);                        // false if killed (or pushed)
  bool isSync(State& s, Instruction* i);
  E enabledAt(State& s, Instruction* i, bool potential, E* wakeNormal = nullptr);
  void park(State& s);
  void done(State& s);
  bool throwSystem(State& s, CallBase* cb, E code);
  E makeException(State& s, const std::string& ti, u64 size, const Value* site);
  GlobalVariable* tiByName(const std::string& n);
  bool tiMatches(u64 thrown, const Constant* catchTI);
  u64 gvAddrByName(const std::string& n, u64 size = 64);
  int typeId(const Value* ti);
  std::map<const Value*, int> typeIds;
  std::map<std::string, u64> extraG;

  void violate(State& s, E cond, const std::string& kind, const std::string& msg);
  void cover(State& s, const std::string& name);
  void unsupported(State& s, const std::string& msg);
  void kill(State& s, E cond);         // assume(!cond)
  void event(State& s, const std::string& kind, std::vector<E> v, E extra = nullptr);
  std::string locOf(State& s);
  bool feasible(State& s);

  // --- models
  typedef std::function<CallRes(State&, CallBase*, std::vector<E>&, Val&)> Model;
  struct ModelDef { Model fn; bool sync = false; std::function<E(State&, CallBase*, std::vector<E>&, bool)> enabled; };
  std::unordered_map<std::string, ModelDef> models;
  std::vector<std::pair<std::string, ModelDef>> prefixModels;
  std::unordered_map<const Function*, ModelDef*> modelCache;
  ModelDef* modelFor(const Function* f);
  void initModels();
  // model cells
  static const u64 MODEL = 0x1000;
  u64 waitCell(int t) { return MODEL + 64 * t; } // +0 cv addr, +8 status, +16 deadline, +24 timed, +32 errno
  u64 spurCell() { return MODEL + 64 * 40; }
  E nowVar(State& s);
  E clockMax();
  E tsToNs(State& s, E ts, E* bad, bool sys);
  E tidE(State& s) { return s.symTid ? mkAdd(s.symTid, mkConst(1, 32)) : mkConst(s.tid + 1, 32); }
  void mutexRelease(State& s, E m);
  void notify(State& s, E cv, bool all);
  CallRes cvWait(State& s, CallBase* cb, E cv, E m, E deadline, bool timed, Val& rv);
  E cvEnabled(State& s, E m, bool potential);
  E mutexFree(State& s, E m, E* selfRec = nullptr);
  void mutexTake(State& s, E m);

  // --- cut points: deep guards are replaced by defined variables, infeasible alternatives dropped
  std::unordered_map<E, E> canonMemo; u64 nCuts = 0, nDropped = 0;
  std::vector<std::unique_ptr<Evaluator>> pool; bool maybe(E g);
  E canonB(E g); E canon(E v); void canonVal(Val& v); void canonAll(Mem& m);
  // --- top
  void mergeStepResults(const Mem& base, std::vector<State>& alts, Mem& out);
  bool runSeq(Mem& mem, Function* f, E guard);
  struct Result { std::string status; std::string json; };
  int main();
  bool checkViols(size_t from, size_t to, std::string& out);
  std::string trace(Evaluator& ev, int uptoStep);
  std::string outcome = "pass";
  std::string outJson;
};
}
