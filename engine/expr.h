// Bit-vector expressions (hash-consed), cheap simplification, interval facts, Z3 back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL,
  K_LSHR, K_ASHR, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_NOT
};

struct Expr;
typedef Expr* EP;
typedef std::vector<uint32_t> VarSet;

struct Expr {
  Op op;
  uint8_t w;
  bool undef;        // depends on an uninitialised value
  uint32_t id;
  EP a, b, c;
  u128 k;            // constant value / var id / extract offset
  u64 ulo, uhi;      // unsigned range (w <= 64)
  i64 slo, shi;      // signed range (w <= 64)
  i128 wlo, whi;     // signed range, any width
  const VarSet* vars;
  void* z3;
  // evaluation memo
  u64 stamp;
  u128 val;
};

struct Var {
  std::string name;
  uint8_t w;
  EP e;
  bool input;        // named by the harness (goes to the replay file)
  bool undef;
  bool ranged;       // range assertion needed
  EP def;            // definitional constraint, or null
  // digit variables: value = '0' + (|x| / 10^pos) % 10
  EP dx; int dpos; bool dneg;
};

struct Model { std::unordered_map<uint32_t, u128> v; };
typedef std::shared_ptr<Model> ModelP;

extern std::vector<Var> gVars;

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, int w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

EP eConst(u128 v, int w);
EP eVar(uint32_t id);
uint32_t newVar(const std::string& name, int w);
uint32_t newVarU(const std::string& name, int w, u64 lo, u64 hi);
uint32_t newVarS(const std::string& name, int w, i64 lo, i64 hi);
EP digitVar(EP x, bool neg, int n, int pos);  // pos 0 = least significant
struct DigitInfo { EP x; bool neg; int n, pos; };
extern std::unordered_map<EP, DigitInfo> gDigitInfo;
EP eBin(Op op, EP a, EP b);
EP eNot(EP a);
EP eZext(EP a, int w);
EP eSext(EP a, int w);
EP eExtract(EP a, int off, int w);
EP eConcat(EP hi, EP lo);
EP eIte(EP c, EP a, EP b);
inline bool isC(EP e) { return e->op == K_CONST; }
inline EP eTrue() { static EP t = eConst(1, 1); return t; }
inline EP eFalse() { static EP t = eConst(0, 1); return t; }
u128 evalE(EP e, const Model& m);
std::string show(EP e, int depth = 6);

enum Res { R_SAT, R_UNSAT, R_UNK };
struct SolverStats {
  u64 queries = 0, z3 = 0, sat = 0, unsat = 0, unk = 0, cacheHits = 0, modelHits = 0;
  double z3time = 0, maxq = 0;
};
extern SolverStats gSS;
extern int gSolverTimeoutMs;
// Is /\ cons /\ extra satisfiable?  Only the part of cons connected with extra (by shared
// variables) is sent; `base` is a model of cons used to complete the returned model.
Res checkSat(const std::vector<EP>& cons, EP extra, const ModelP& base, ModelP* out);
Res checkFull(const std::vector<EP>& cons, ModelP* out);
EP decimalValue(EP x, bool neg, int n, int w);
