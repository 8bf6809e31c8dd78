// Pre-decoded LLVM IR.
#pragma once
#include "mem.hpp"
#include <map>
#include <memory>
#include <string>
enum Op : u8 { O_BIN, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_TRUNC, O_ZEXT, O_SEXT, O_COPY, O_BITCAST, O_FPCAST, O_SELECT, O_LOAD, O_STORE, O_ALLOCA, O_GEP,
  O_JMP, O_BR, O_SWITCH, O_RET, O_UNREACHABLE, O_CALL, O_EXTELT, O_INSELT, O_SHUFFLE, O_INSVAL, O_RMW, O_CMPXCHG, O_NOP, O_LANDINGPAD, O_RESUME };
struct Leaf { u32 off; u16 w; bool ptr; bool fp; };
struct PhiCopy { int dst, src, n; };
struct Edge { u32 target; std::vector<PhiCopy> phis; };
struct GepTerm { int op; u64 scale; u16 w; };
struct FuncInfo;
struct Engine; struct State;
struct Inst;
typedef int (*Builtin)(Engine &, State &, const Inst &);
struct Ext {
  std::vector<Leaf> leaves;       // load/store/select/ret leaf layout
  std::vector<GepTerm> terms;
  std::vector<Edge> edges;        // terminators / invoke normal edge
  std::vector<std::pair<u128, u32>> cases; // switch: value, edge idx
  std::vector<int> args; std::vector<u16> argN; std::vector<u16> argW; // call args
  std::vector<int> shuf; std::vector<u16> widths, widths2;
  FuncInfo *callee = nullptr; Builtin builtin = nullptr; std::string name;
  u16 retN = 0, retW = 0; bool noaliasByval = false; std::vector<u64> byval;
};
struct Inst { Op op; u8 sub; u16 w, w2; u16 n; int dst, a, b, c; u64 imm; Ext *x; };
struct FuncInfo {
  std::string name, pretty; bool decoded = false, isDecl = false; u64 addr = 0;
  std::vector<Inst> code; std::vector<Val> consts; u32 nslots = 0; std::vector<int> argSlot; std::vector<u16> argN; u16 retN = 0;
  void *llvmF = nullptr; bool varargs = false; u64 calls = 0; bool interesting = false; Builtin builtin = nullptr;
};
struct Program {
  std::map<std::string, FuncInfo *> funcs; std::map<u64, FuncInfo *> byAddr; Memory image; u64 globalEnd;
  std::map<std::string, u64> globalAddr;
};
extern Program P;
void loadProgram(const char *path);
void decodeFunction(FuncInfo *f);
Builtin findBuiltin(const std::string &name, const std::string &pretty);
std::string rustDemangle(const std::string &s);
int prepMain(int argc, char **argv);
