#pragma once
#include "ir.hpp"
#include <set>
#include <functional>
#include <memory>
struct Dom { u64 b[4]; bool has(unsigned v) const { return b[v >> 6] >> (v & 63) & 1; } void clr(unsigned v) { b[v >> 6] &= ~(1ull << (v & 63)); } void set(unsigned v) { b[v >> 6] |= 1ull << (v & 63); }
  unsigned count() const { return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]); }
  bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); } unsigned first() const { for (int i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return 256; }
  static Dom full() { return {{~0ull, ~0ull, ~0ull, ~0ull}}; } static Dom none() { return {{0, 0, 0, 0}}; } };
struct SymRegion { std::string name; u32 start, len; };
struct Frame { FuncInfo *f; u32 pc; u32 base; u64 sp; const Inst *call; };
struct LogEntry { std::string tag; Val v; };
struct Proc { std::vector<Frame> frames; std::vector<Val> regs; std::shared_ptr<Memory> mem; u64 sp = 0, heap = 0; bool done = false, blocked = false, gated = false, panicOk = false; u32 gen = 0; u64 flags = 0; Val result; };
// a running group of child processes: the parent's context, the children, which one runs
struct Group { Proc parent; std::vector<Proc> ps; int cur = 0; u64 out = 0; u32 parentGen = 0; u64 parentFlags = 0; };
struct FsState;
struct State {
  std::vector<Frame> frames; std::vector<Val> regs; Memory mem; u64 sp, heap;
  std::vector<Dom> doms; std::vector<E> cons; std::vector<u8> model; std::vector<SymRegion> regions; std::vector<LogEntry> log;
  std::vector<bool> multi; // var occurs in a multi-variable constraint
  u64 steps = 0; bool panicOk = false; std::shared_ptr<FsState> fs; u64 rngCounter = 0; u64 clockNs = 1700000000ull * 1000000000ull; u64 id = 0; u32 choices = 0;
  // cooperative processes
  std::vector<Group> groups; u32 gen = 0, nextGen = 1; u64 crashLeft = 0, faultLeft = 0, preemptLeft = 0, pflags = 0; bool gated = false; std::map<std::string, u64> env; std::vector<E> chs; u32 chk = 0;
  State() {}
};
enum { ST_NEXT = 0, ST_END = 1, ST_RETRY = 2, ST_JUMPED = 3 };
struct Stats { u64 paths = 0, pathsAssumed = 0, steps = 0, forks = 0, smt = 0, smtSat = 0, smtUnsat = 0, cacheHits = 0, domDec = 0, modelHits = 0, asserts = 0, assertsSym = 0, assertTrivial = 0, xcheck = 0, panicsAllowed = 0, samples = 0; double smtTime = 0; };
struct Engine {
  std::map<std::string, u64> params; std::string outDir, entry; Stats st;
  std::vector<State *> work; u64 nextState = 1; double deadline = 0; double solverTimeout = 20000; u64 maxSteps = 2000000000ull; int maxViol = 3; 
  std::map<std::string, u64> reach; std::map<std::string, int> violCount; std::set<std::string> posyFuncs; bool incomplete = false; std::string incompleteWhy;
  std::vector<std::string> violations, samples; u64 sampleEvery = 1; u64 nextSample = 1; std::map<std::string, std::string> sp;
  std::map<std::string,u64> events;
  void addIncomplete(const std::string &w) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = w; }
  // ---- solver
  int decide(State &s, E c);                 // 1 true, 0 false, 2 both
  bool feasible(State &s, E c, std::vector<u8> *model);
  void assume(State &s, E c);                // must be feasible
  bool querySMT(State &s, E c, std::vector<u8> *model);
  u64 evalU(State &s, E e);
  void fixModel(State &s, E c);
  void xcheckDomain(State &s, E c, bool expect);
  // enumerate the effective support
  int effVars(State &s, E e, u32 *v, int max);
  // ---- execution
  bool concretize(State &s, Val &v, unsigned w); // returns true if v is now concrete (and a sibling state may have been pushed)
  State *clone(State &s);
  Val opnd(State &s, int i, int lane = 0);
  void run(); bool step(State &s);
  void runState(State *s);
  void call(State &s, FuncInfo *f, const Inst &I);
  void endPath(State &s, const char *why);
  void violation(State &s, const std::string &kind, const std::string &id, E cond = nullptr);
  std::string stackOf(State &s); std::string posyFrame(State &s);
  Val loadVal(State &s, Val &addr, unsigned w, int &rc); 
  int resolve(State &s, Val &addr); // concretises address
  void setOpnd(State &s, int i, const Val &v) { if (i >= 0) s.regs[s.frames.back().base + i] = v; }
  Val arg(State &s, const Inst &I, int i) { return opnd(s, I.x->args[i]); }
  bool argC(State &s, const Inst &I, int i, u64 &out); // concretise argument
  void ret(State &s, const Inst &I, const Val &v) { if (I.dst >= 0) s.regs[s.frames.back().base + I.dst] = v; }
  void modelJson(State &s, const std::vector<u8> &m, std::string &out);
  std::string readStr(State &s, u64 p, u64 n, bool &sym);
};
extern Engine G;
double nowSec();
std::string jsonEsc(const std::string &s);
u64 heapAlloc(State &s, u64 n, u64 al);
