// Compact IR produced by the loader from LLVM bitcode.
#pragma once
#include "expr.h"
#include <string>
#include <vector>

struct Val { u64 c; EP e; };            // e == null: concrete (width <= 64); otherwise symbolic/wide

enum IOp : uint8_t {
  I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR,
  I_SWITCH, I_SELECT, I_UNREACHABLE, I_EXTRACTVALUE, I_INSERTVALUE, I_NOP, I_UNSUPPORTED
};
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Leaf { int off; int w; };         // byte offset, bit width
struct GepIdx { int opnd; int w; i64 scale; };
struct PhiCopy { int dst; int src; };
struct Edge { int target; std::vector<PhiCopy> copies; };   // target: instruction index

struct Inst {
  IOp op; uint8_t w = 0, w2 = 0; Op bop = K_ADD; Pred pred = P_EQ; bool nsw = false, nuw = false;
  int dst = -1; int a = 0, b = 0, c = 0;  // operands: >=0 register, <0 constant -(i+1)
  i64 imm = 0;
  int callee = -1;                        // index into Module::funcs, or -1 if indirect (operand a)
  std::vector<int> args; std::vector<uint8_t> argw;   // flattened
  std::vector<Leaf> leaves;               // load/store/ret/call result leaves
  std::vector<GepIdx> idx;
  std::vector<Edge> edges;
  std::vector<u64> cases;
  int line = 0; 
  std::string what;                       // unsupported reason
};
struct Function {
  std::string name, file; bool defined = false; bool variadic = false; bool repo = false;
  int nparams = 0; std::vector<uint8_t> pw;
  int nregs = 0; int retw = 0; int nret = 0;
  std::vector<Inst> code;
  int native = -1;
  u64 calls = 0, insts = 0;
};
struct GlobalInit { u64 off; int kind; u64 val; int len; };
struct Global {
  std::string name; u64 size; bool constant; bool external; bool harness = false; std::vector<uint8_t> bytes;
  std::vector<std::pair<u64, u64>> ptrs;   // offset -> address value
};
struct Module {
  std::vector<Function> funcs; std::vector<Global> globals; std::vector<Val> consts;
  int findFunc(const std::string& n) const { for (size_t i = 0; i < funcs.size(); i++) if (funcs[i].name == n) return (int)i; return -1; }
};
// address layout: object id in the high 32 bits
static const u64 OFF0 = 0x40000000ull;
static const uint32_t ID_GLOBAL = 1, ID_HEAP = 0x100000, ID_STACK = 0x4000000, ID_FUNC = 0x7000000;
inline u64 mkAddr(uint32_t id, u64 off) { return ((u64)id << 32) + OFF0 + off; }
Module* loadModule(const char* path);
