// LLVM bitcode -> compact IR, through the LLVM C API.
#include "ir.h"
#include <llvm-c/BitReader.h>
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Target.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_map>

static LLVMTargetDataRef TD;
static Module* M;
static std::unordered_map<LLVMValueRef, int> gFuncIdx, gGlobIdx;

static int bitw(LLVMTypeRef t) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
    case LLVMPointerTypeKind: return 64;
    case LLVMDoubleTypeKind: return 64;
    case LLVMFloatTypeKind: return 32;
    default: return -1;
  }
}
static void flatten(LLVMTypeRef t, int off, std::vector<Leaf>& out) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t);
      for (unsigned i = 0; i < n; i++) flatten(LLVMStructGetTypeAtIndex(t, i), off + (int)LLVMOffsetOfElement(TD, t, i), out); break; }
    case LLVMArrayTypeKind: { unsigned n = LLVMGetArrayLength(t); LLVMTypeRef e = LLVMGetElementType(t); int sz = (int)LLVMABISizeOfType(TD, e);
      for (unsigned i = 0; i < n; i++) flatten(e, off + sz * (int)i, out); break; }
    case LLVMVoidTypeKind: break;
    default: out.push_back({off, bitw(t)});
  }
}
static int nleaves(LLVMTypeRef t) { std::vector<Leaf> l; flatten(t, 0, l); return (int)l.size(); }

static bool evalConst(LLVMValueRef v, u64& out);
static u64 constInt(LLVMValueRef v) { return LLVMConstIntGetZExtValue(v); }

static bool gepOffset(LLVMValueRef v, i64& off) {
  LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
  int n = LLVMGetNumOperands(v);
  off = 0;
  for (int i = 1; i < n; i++) {
    LLVMValueRef ix = LLVMGetOperand(v, i);
    if (!LLVMIsAConstantInt(ix)) return false;
    i64 k = LLVMConstIntGetSExtValue(ix);
    if (i == 1) { off += k * (i64)LLVMABISizeOfType(TD, t); continue; }
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { off += (i64)LLVMOffsetOfElement(TD, t, (unsigned)k); t = LLVMStructGetTypeAtIndex(t, (unsigned)k); }
    else { t = LLVMGetElementType(t); off += k * (i64)LLVMABISizeOfType(TD, t); }
  }
  return true;
}
static bool evalConst(LLVMValueRef v, u64& out) {   // scalar constants up to 64 bits
  if (LLVMIsAConstantInt(v)) { out = constInt(v); return true; }
  if (LLVMIsAConstantPointerNull(v)) { out = 0; return true; }
  if (LLVMIsAFunction(v)) { out = mkAddr(ID_FUNC + gFuncIdx[v], 0); return true; }
  if (LLVMIsAGlobalVariable(v)) { out = mkAddr(ID_GLOBAL + gGlobIdx[v], 0); return true; }
  if (LLVMIsAGlobalAlias(v)) return evalConst(LLVMAliasGetAliasee(v), out);
  if (LLVMIsAConstantFP(v)) { LLVMBool l; double d = LLVMConstRealGetDouble(v, &l); if (bitw(LLVMTypeOf(v)) == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); out = x; } else memcpy(&out, &d, 8); return true; }
  if (LLVMIsAConstantExpr(v)) {
    u64 a, b;
    switch (LLVMGetConstOpcode(v)) {
      case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: case LLVMTrunc: case LLVMZExt:
        if (!evalConst(LLVMGetOperand(v, 0), a)) return false; { int w = bitw(LLVMTypeOf(v)); out = w >= 64 ? a : a & (u64)maskw(w); } return true;
      case LLVMGetElementPtr: { i64 off; if (!evalConst(LLVMGetOperand(v, 0), a) || !gepOffset(v, off)) return false; out = a + (u64)off; return true; }
      case LLVMAdd: case LLVMSub: if (!evalConst(LLVMGetOperand(v, 0), a) || !evalConst(LLVMGetOperand(v, 1), b)) return false; out = LLVMGetConstOpcode(v) == LLVMAdd ? a + b : a - b; return true;
      default: return false;
    }
  }
  return false;
}
static void fillInit(LLVMValueRef v, u64 off, Global& g) {
  LLVMTypeRef t = LLVMTypeOf(v);
  if (LLVMIsAConstantAggregateZero(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) return;
  if (LLVMIsAConstantDataSequential(v)) {
    unsigned n = LLVMGetArrayLength(t); LLVMTypeRef et = LLVMGetElementType(t); u64 sz = LLVMABISizeOfType(TD, et);
    if (sz == 1) { size_t len; const char* s = LLVMGetAsString(v, &len); memcpy(&g.bytes[off], s, len); return; }
    for (unsigned i = 0; i < n; i++) fillInit(LLVMGetElementAsConstant(v, i), off + i * sz, g);
    return;
  }
  if (LLVMIsAConstantArray(v)) { unsigned n = LLVMGetArrayLength(t); u64 sz = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (unsigned i = 0; i < n; i++) fillInit(LLVMGetOperand(v, i), off + i * sz, g); return; }
  if (LLVMIsAConstantStruct(v)) { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) fillInit(LLVMGetOperand(v, i), off + LLVMOffsetOfElement(TD, t, i), g); return; }
  u64 x;
  if (!evalConst(v, x)) { fprintf(stderr, "loader: unsupported initialiser in %s\n", g.name.c_str()); return; }
  u64 sz = LLVMABISizeOfType(TD, t);
  for (u64 i = 0; i < sz && i < 8; i++) g.bytes[off + i] = (uint8_t)(x >> (8 * i));
}

struct FnCtx { std::unordered_map<LLVMValueRef, int> reg; std::unordered_map<LLVMBasicBlockRef, int> bb; };
static std::map<std::pair<LLVMValueRef, int>, int> gConstIdx;
static int newConst(Val v) { M->consts.push_back(v); return -(int)M->consts.size(); }

// returns base operand index; leaf j of an aggregate is base + j for registers, base - j for constants
static int operand(FnCtx& C, LLVMValueRef v) {
  auto it = C.reg.find(v);
  if (it != C.reg.end()) return it->second;
  auto ci = gConstIdx.find({v, 0});
  if (ci != gConstIdx.end()) return ci->second;
  std::vector<Leaf> lv; flatten(LLVMTypeOf(v), 0, lv);
  int base;
  if (lv.size() == 1) {
    int w = lv[0].w; Val x{0, nullptr};
    if (LLVMIsUndef(v) || LLVMIsPoison(v)) {
      x.e = nullptr; x.c = 0;
      // undefined operand: a variable flagged as uninitialised
      if (w > 0) { char nm[32]; snprintf(nm, sizeof nm, "undef!const!%zu", gVars.size()); uint32_t id = newVar(nm, w); gVars[id].undef = true; gVars[id].input = false; gVars[id].e->undef = true; x.e = gVars[id].e; }
    } else if (w > 64 && LLVMIsAConstantInt(v)) {
      char* s = LLVMPrintValueToString(v); const char* p = strchr(s, ' ') + 1; bool neg = *p == '-'; if (neg) p++; u128 k = 0; for (; *p >= '0' && *p <= '9'; p++) k = k * 10 + (*p - '0'); if (neg) k = (u128)0 - k; LLVMDisposeMessage(s);
      x.e = eConst(k, w);
    } else if (!evalConst(v, x.c)) { char* s = LLVMPrintValueToString(v); fprintf(stderr, "loader: unsupported constant %s\n", s); LLVMDisposeMessage(s); }
    base = newConst(x);
  } else {
    base = -(int)M->consts.size() - 1;
    Global g; g.bytes.assign(LLVMABISizeOfType(TD, LLVMTypeOf(v)) + 16, 0);
    fillInit(v, 0, g);
    for (auto& l : lv) { u64 x = 0; memcpy(&x, &g.bytes[l.off], (l.w + 7) / 8 > 8 ? 8 : (l.w + 7) / 8); Val q{x, nullptr}; if (l.w > 64) q.e = eConst(x, l.w); newConst(q); }
    if (lv.empty()) newConst(Val{0, nullptr});
  }
  gConstIdx[{v, 0}] = base;
  return base;
}
static int leafOp(int base, int j) { return base >= 0 ? base + j : base - j; }

static void unsupported(Inst& I, LLVMValueRef v) { I.op = I_UNSUPPORTED; char* s = LLVMPrintValueToString(v); I.what = s; LLVMDisposeMessage(s); }
static int aggIndex(LLVMTypeRef t, const unsigned* idx, unsigned n, LLVMTypeRef* sub) {
  int pos = 0;
  for (unsigned k = 0; k < n; k++) {
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned i = 0; i < idx[k]; i++) pos += nleaves(LLVMStructGetTypeAtIndex(t, i)); t = LLVMStructGetTypeAtIndex(t, idx[k]); }
    else { t = LLVMGetElementType(t); pos += (int)idx[k] * nleaves(t); }
  }
  *sub = t; return pos;
}

static void loadFunction(LLVMValueRef F, Function& fn) {
  FnCtx C; int nreg = 0;
  for (LLVMValueRef p = LLVMGetFirstParam(F); p; p = LLVMGetNextParam(p)) { C.reg[p] = nreg; std::vector<Leaf> lv; flatten(LLVMTypeOf(p), 0, lv); for (auto& l : lv) { fn.pw.push_back((uint8_t)l.w); nreg++; } }
  fn.nparams = nreg;
  int count = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(F); b; b = LLVMGetNextBasicBlock(b)) {
    C.bb[b] = count;
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      int n = nleaves(LLVMTypeOf(i));
      if (n) { C.reg[i] = nreg; nreg += n; }
      if (LLVMGetInstructionOpcode(i) != LLVMPHI) count++;
    }
  }
  fn.nregs = nreg;
  auto edge = [&](LLVMBasicBlockRef from, LLVMBasicBlockRef to) {
    Edge e; e.target = C.bb[to];
    for (LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) {
      unsigned n = LLVMCountIncoming(i);
      for (unsigned k = 0; k < n; k++) if (LLVMGetIncomingBlock(i, k) == from) {
        int nl = nleaves(LLVMTypeOf(i)); int src = operand(C, LLVMGetIncomingValue(i, k));
        for (int j = 0; j < nl; j++) e.copies.push_back({C.reg[i] + j, leafOp(src, j)});
        break;
      }
    }
    return e;
  };
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(F); b; b = LLVMGetNextBasicBlock(b))
    for (LLVMValueRef v = LLVMGetFirstInstruction(b); v; v = LLVMGetNextInstruction(v)) {
      LLVMOpcode oc = LLVMGetInstructionOpcode(v);
      if (oc == LLVMPHI) continue;
      Inst I; I.op = I_UNSUPPORTED;
      LLVMMetadataRef dl = LLVMInstructionGetDebugLoc(v);
      if (dl) I.line = (int)LLVMDILocationGetLine(dl);
      if (C.reg.count(v)) I.dst = C.reg[v];
      LLVMTypeRef ty = LLVMTypeOf(v);
      auto bin = [&](Op o) { I.op = I_BIN; I.bop = o; int w = bitw(ty); I.w = (uint8_t)w; I.a = operand(C, LLVMGetOperand(v, 0)); I.b = operand(C, LLVMGetOperand(v, 1)); };
      switch (oc) {
        case LLVMAdd: bin(K_ADD); I.nsw = LLVMGetNSW(v); break;
        case LLVMSub: bin(K_SUB); I.nsw = LLVMGetNSW(v); break;
        case LLVMMul: bin(K_MUL); I.nsw = LLVMGetNSW(v); break;
        case LLVMUDiv: bin(K_UDIV); break; case LLVMSDiv: bin(K_SDIV); break;
        case LLVMURem: bin(K_UREM); break; case LLVMSRem: bin(K_SREM); break;
        case LLVMAnd: bin(K_AND); break; case LLVMOr: bin(K_OR); break; case LLVMXor: bin(K_XOR); break;
        case LLVMShl: bin(K_SHL); break; case LLVMLShr: bin(K_LSHR); break; case LLVMAShr: bin(K_ASHR); break;
        case LLVMICmp: {
          I.op = I_ICMP; I.w = (uint8_t)bitw(LLVMTypeOf(LLVMGetOperand(v, 0)));
          static const std::map<int, Pred> pm = {{LLVMIntEQ, P_EQ}, {LLVMIntNE, P_NE}, {LLVMIntUGT, P_UGT}, {LLVMIntUGE, P_UGE}, {LLVMIntULT, P_ULT}, {LLVMIntULE, P_ULE}, {LLVMIntSGT, P_SGT}, {LLVMIntSGE, P_SGE}, {LLVMIntSLT, P_SLT}, {LLVMIntSLE, P_SLE}};
          I.pred = pm.at(LLVMGetICmpPredicate(v)); I.a = operand(C, LLVMGetOperand(v, 0)); I.b = operand(C, LLVMGetOperand(v, 1)); break; }
        case LLVMZExt: case LLVMSExt: case LLVMTrunc:
          I.op = oc == LLVMZExt ? I_ZEXT : oc == LLVMSExt ? I_SEXT : I_TRUNC; I.w = (uint8_t)bitw(LLVMTypeOf(LLVMGetOperand(v, 0))); I.w2 = (uint8_t)bitw(ty); I.a = operand(C, LLVMGetOperand(v, 0)); break;
        case LLVMPtrToInt: case LLVMIntToPtr: { int w1 = bitw(LLVMTypeOf(LLVMGetOperand(v, 0))), w2 = bitw(ty); I.w = (uint8_t)w1; I.w2 = (uint8_t)w2; I.op = w1 == w2 ? I_COPY : w1 < w2 ? I_ZEXT : I_TRUNC; I.a = operand(C, LLVMGetOperand(v, 0)); break; }
        case LLVMBitCast: case LLVMFreeze: if (nleaves(ty) != 1) { unsupported(I, v); break; } I.op = I_COPY; I.w = (uint8_t)bitw(ty); I.a = operand(C, LLVMGetOperand(v, 0)); break;
        case LLVMAlloca: { I.op = I_ALLOCA; LLVMTypeRef at = LLVMGetAllocatedType(v); I.imm = (i64)LLVMABISizeOfType(TD, at); LLVMValueRef n = LLVMGetOperand(v, 0); I.w = (uint8_t)bitw(LLVMTypeOf(n)); I.a = operand(C, n); break; }
        case LLVMLoad: I.op = I_LOAD; flatten(ty, 0, I.leaves); I.a = operand(C, LLVMGetOperand(v, 0)); break;
        case LLVMStore: { I.op = I_STORE; LLVMValueRef x = LLVMGetOperand(v, 0); flatten(LLVMTypeOf(x), 0, I.leaves); I.b = operand(C, x); I.a = operand(C, LLVMGetOperand(v, 1)); break; }
        case LLVMGetElementPtr: {
          I.op = I_GEP; I.a = operand(C, LLVMGetOperand(v, 0)); LLVMTypeRef t = LLVMGetGEPSourceElementType(v);
          int n = LLVMGetNumOperands(v);
          for (int i = 1; i < n; i++) {
            LLVMValueRef ix = LLVMGetOperand(v, i); i64 sc;
            if (i == 1) sc = (i64)LLVMABISizeOfType(TD, t);
            else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { unsigned k = (unsigned)LLVMConstIntGetZExtValue(ix); I.imm += (i64)LLVMOffsetOfElement(TD, t, k); t = LLVMStructGetTypeAtIndex(t, k); continue; }
            else { t = LLVMGetElementType(t); sc = (i64)LLVMABISizeOfType(TD, t); }
            if (LLVMIsAConstantInt(ix)) I.imm += LLVMConstIntGetSExtValue(ix) * sc;
            else I.idx.push_back({operand(C, ix), bitw(LLVMTypeOf(ix)), sc});
          }
          break; }
        case LLVMSelect: { I.op = I_SELECT; if (nleaves(ty) != 1) { unsupported(I, v); break; } I.w = (uint8_t)bitw(ty); I.a = operand(C, LLVMGetOperand(v, 0)); I.b = operand(C, LLVMGetOperand(v, 1)); I.c = operand(C, LLVMGetOperand(v, 2)); break; }
        case LLVMExtractValue: { I.op = I_COPY; LLVMTypeRef sub; int p = aggIndex(LLVMTypeOf(LLVMGetOperand(v, 0)), LLVMGetIndices(v), LLVMGetNumIndices(v), &sub); if (nleaves(sub) != 1) { unsupported(I, v); break; } I.w = (uint8_t)bitw(sub); I.a = leafOp(operand(C, LLVMGetOperand(v, 0)), p); break; }
        case LLVMInsertValue: { I.op = I_INSERTVALUE; LLVMTypeRef at = LLVMTypeOf(LLVMGetOperand(v, 0)), sub; int p = aggIndex(at, LLVMGetIndices(v), LLVMGetNumIndices(v), &sub); int n = nleaves(at), m = nleaves(sub); int A = operand(C, LLVMGetOperand(v, 0)), B = operand(C, LLVMGetOperand(v, 1));
          for (int j = 0; j < n; j++) I.args.push_back(j >= p && j < p + m ? leafOp(B, j - p) : leafOp(A, j)); break; }
        case LLVMRet: { I.op = I_RET; if (LLVMGetNumOperands(v)) { LLVMValueRef r = LLVMGetOperand(v, 0); int n = nleaves(LLVMTypeOf(r)); int B = operand(C, r); for (int j = 0; j < n; j++) I.args.push_back(leafOp(B, j)); } break; }
        case LLVMBr: {
          if (!LLVMIsConditional(v)) { I.op = I_BR; I.edges.push_back(edge(b, LLVMGetSuccessor(v, 0))); }
          else { I.op = I_CONDBR; I.a = operand(C, LLVMGetCondition(v)); I.edges.push_back(edge(b, LLVMGetSuccessor(v, 0))); I.edges.push_back(edge(b, LLVMGetSuccessor(v, 1))); }
          break; }
        case LLVMSwitch: {
          I.op = I_SWITCH; I.a = operand(C, LLVMGetOperand(v, 0)); I.w = (uint8_t)bitw(LLVMTypeOf(LLVMGetOperand(v, 0)));
          I.edges.push_back(edge(b, LLVMGetSwitchDefaultDest(v)));
          int n = LLVMGetNumOperands(v);
          for (int k = 2; k + 1 < n; k += 2) { I.cases.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(v, k))); I.edges.push_back(edge(b, LLVMValueAsBasicBlock(LLVMGetOperand(v, k + 1)))); }
          break; }
        case LLVMUnreachable: I.op = I_UNREACHABLE; break;
        case LLVMCall: {
          I.op = I_CALL; LLVMValueRef cv = LLVMGetCalledValue(v);
          if (LLVMIsAInlineAsm(cv)) { unsupported(I, v); break; }
          if (LLVMIsAFunction(cv)) I.callee = gFuncIdx[cv]; else I.a = operand(C, cv);
          unsigned n = LLVMGetNumArgOperands(v);
          bool md = false;
          for (unsigned k = 0; k < n; k++) {
            LLVMValueRef x = LLVMGetOperand(v, k);
            if (LLVMGetTypeKind(LLVMTypeOf(x)) == LLVMMetadataTypeKind) { md = true; break; }
            std::vector<Leaf> lv; flatten(LLVMTypeOf(x), 0, lv); int B = operand(C, x);
            // byval aggregates are passed as pointers: the callee copies nothing, so model the copy
            LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(v, k + 1, LLVMGetEnumAttributeKindForName("byval", 5));
            if (at) { LLVMTypeRef bt = LLVMGetTypeAttributeValue(at); I.cases.push_back(((u64)I.args.size() << 32) | LLVMABISizeOfType(TD, bt)); }
            for (size_t j = 0; j < lv.size(); j++) { I.args.push_back(leafOp(B, (int)j)); I.argw.push_back((uint8_t)lv[j].w); }
          }
          if (md) I.op = I_NOP;
          flatten(ty, 0, I.leaves);
          break; }
        default: {
          unsupported(I, v); }
      }
      fn.code.push_back(std::move(I));
    }
}

Module* loadModule(const char* path) {
  LLVMContextRef ctx = LLVMContextCreate(); LLVMMemoryBufferRef buf; char* err = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(path, &buf, &err)) { fprintf(stderr, "cannot read %s: %s\n", path, err); exit(2); }
  LLVMModuleRef m;
  if (LLVMParseBitcodeInContext2(ctx, buf, &m)) { fprintf(stderr, "cannot parse %s\n", path); exit(2); }
  M = new Module(); TD = LLVMCreateTargetData(LLVMGetDataLayoutStr(m));
  for (LLVMValueRef f = LLVMGetFirstFunction(m); f; f = LLVMGetNextFunction(f)) {
    gFuncIdx[f] = (int)M->funcs.size(); Function fn; size_t l; fn.name = LLVMGetValueName2(f, &l); fn.defined = !LLVMIsDeclaration(f);
    fn.variadic = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f));
    LLVMTypeRef rt = LLVMGetReturnType(LLVMGlobalGetValueType(f)); fn.nret = nleaves(rt); fn.retw = fn.nret == 1 ? bitw(rt) : 0;
    LLVMMetadataRef sp = LLVMGetSubprogram(f);
    if (sp) { LLVMMetadataRef fl = LLVMDIScopeGetFile(sp); if (fl) { unsigned n; const char* s = LLVMDIFileGetFilename(fl, &n); fn.file = std::string(s, n); } }
    M->funcs.push_back(fn);
  }
  int gi = 0;
  for (LLVMValueRef g = LLVMGetFirstGlobal(m); g; g = LLVMGetNextGlobal(g)) gGlobIdx[g] = gi++;
  for (LLVMValueRef g = LLVMGetFirstGlobal(m); g; g = LLVMGetNextGlobal(g)) {
    Global G; size_t l; G.name = LLVMGetValueName2(g, &l); LLVMTypeRef t = LLVMGlobalGetValueType(g); G.external = LLVMIsDeclaration(g); 
    G.size = LLVMGetTypeKind(t) == LLVMStructTypeKind && LLVMIsOpaqueStruct(t) ? 8 : LLVMABISizeOfType(TD, t); G.constant = LLVMIsGlobalConstant(g);
    G.bytes.assign(G.size, 0);
    if (!G.external) fillInit(LLVMGetInitializer(g), 0, G);
    size_t nm; LLVMValueMetadataEntry* me = LLVMGlobalCopyAllMetadata(g, &nm);
    for (size_t i = 0; i < nm; i++) {
      LLVMMetadataRef d = LLVMValueMetadataEntriesGetMetadata(me, (unsigned)i);
      if (LLVMGetMetadataKind(d) != LLVMDIGlobalVariableExpressionMetadataKind) continue;
      LLVMMetadataRef fl = LLVMDIVariableGetFile(LLVMDIGlobalVariableExpressionGetVariable(d)); if (!fl) continue;
      unsigned n; const char* s = LLVMDIFileGetFilename(fl, &n); G.harness |= std::string(s, n).find("harness/") != std::string::npos; }
    LLVMDisposeValueMetadataEntries(me);
    M->globals.push_back(std::move(G));
  }
  for (LLVMValueRef f = LLVMGetFirstFunction(m); f; f = LLVMGetNextFunction(f)) if (!LLVMIsDeclaration(f)) loadFunction(f, M->funcs[gFuncIdx[f]]);
  return M;
}
