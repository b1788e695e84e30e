// Symbolic interpreter.
#include "ir.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <set>
#include <unordered_set>
#include <sys/resource.h>

struct SymB { EP e; uint8_t i; };
struct Obj {
  int rc = 1; u64 size = 0; uint8_t kind = 0;   // 0 global 1 heap 2 stack 3 internal heap
  bool freed = false, ro = false;
  uint8_t* data = nullptr; uint8_t* st = nullptr; SymB* sym = nullptr;
  ~Obj() { free(data); free(st); free(sym); }
};
struct ObjRef {
  Obj* p;
  ObjRef(Obj* q = nullptr) : p(q) {}
  ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
static Obj* newObj(u64 size, uint8_t kind, bool undef) {
  Obj* o = new Obj(); o->size = size; o->kind = kind; o->data = (uint8_t*)calloc(1, size + 16);
  if (undef && size) { o->st = (uint8_t*)malloc(size + 16); memset(o->st, 2, size + 16); }
  return o;
}
static Obj* cloneObj(const Obj* a) {
  Obj* o = new Obj(); o->size = a->size; o->kind = a->kind; o->freed = a->freed; o->ro = a->ro;
  o->data = (uint8_t*)malloc(a->size + 16); memcpy(o->data, a->data, a->size + 16);
  if (a->st) { o->st = (uint8_t*)malloc(a->size + 16); memcpy(o->st, a->st, a->size + 16); }
  if (a->sym) { o->sym = (SymB*)malloc(sizeof(SymB) * (a->size + 16)); memcpy(o->sym, a->sym, sizeof(SymB) * (a->size + 16)); }
  return o;
}

struct Frame { int fn; int pc; int base; size_t stackMark; int retDst; std::vector<Val> varargs; };
struct State {
  std::vector<Frame> fr; std::vector<Val> regs;
  std::vector<ObjRef> glob, heap, stack;
  std::vector<EP> cons; ModelP model;
  u64 insts = 0; int exitMode = 0; i64 live = 0; bool done = false; int undefCount = 0;
  std::map<std::string, int> occ;
  std::vector<std::pair<uint32_t, ObjRef>> frozen; size_t frozenCount = 0;
  std::vector<std::string> trail;
  int depthForks = 0; i64 forced = -1;
  int warm = 0;   // runs of the entry on fixed inputs still to do before the symbolic one
};
struct PathEnd {};
struct Again {};   // the end of a run on fixed inputs

static Module* M;
static std::vector<State*> work;
static std::vector<std::vector<char>> hit;
static bool optUbSigned = false, optOnlyMem = false, optOnlyChanged = false, inFreezeCheck = false;
static u64 maxInstPath = 30000000, maxPaths = 1000000, maxViol = 3;
static double maxTime = 60;
static std::string cexDir = ".", outFile;
static std::map<std::string, long long> params;
static std::map<std::string, u64> reached, exitReach;
static std::map<std::string, int> warnings;
static u64 nPaths = 0, nInsts = 0, nForks = 0, nAsserts = 0, nAssertsSolver = 0, nAssertUnk = 0, nIncomplete = 0, nExits = 0, nAssumeKill = 0, nHeapChecks = 0, nUnkBranch = 0;
static std::map<std::string, int> incompleteWhy;
struct Viol { std::string kind, msg, where; int idx; };
static std::vector<Viol> viols; static std::set<std::string> violSeen;
static std::vector<std::pair<std::string, std::string>> samples;
static std::map<std::string, uint32_t> named;

static auto T0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static inline Val getOp(State& s, int base, int o) { return o >= 0 ? s.regs[base + o] : M->consts[-o - 1]; }
static inline EP toE(Val v, int w) { return v.e ? v.e : eConst(v.c, w); }
static inline Val fromE(EP e) { if (isC(e) && e->w <= 64) return Val{(u64)e->k, nullptr}; return Val{0, e}; }

static std::string whereAmI(State& s) {
  std::string r;
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
    Frame& f = s.fr[i]; Function& fn = M->funcs[f.fn]; char b[32]; snprintf(b, sizeof b, ":%d", fn.code[f.pc].line);
    if (!r.empty()) r += " < ";
    r += fn.name + b;
  }
  return r;
}
static std::string leafWhere(State& s) {   // innermost repo function
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) { Function& fn = M->funcs[s.fr[i].fn]; if (fn.repo) { char b[32]; snprintf(b, sizeof b, ":%d", fn.code[s.fr[i].pc].line); return fn.name + b; } }
  return whereAmI(s);
}
static void writeInputs(FILE* f, const Model& m) {
  for (auto& kv : named) {
    Var& v = gVars[kv.second];
    u128 x = evalE(v.e, m); i128 sx = sextw(x, v.w);
    if (v.w > 64) { fprintf(f, "%s 0x%llx%016llx\n", kv.first.c_str(), (unsigned long long)(u64)((u128)sx >> 64), (unsigned long long)(u64)sx); }
    else fprintf(f, "%s %lld\n", kv.first.c_str(), (long long)sx);
  }
}
static void report(State& s, const std::string& kind, const std::string& msg, EP extra) {
  if (optOnlyChanged && !inFreezeCheck) return;   // only alterations of frozen structures count
  if (optOnlyMem) {   // what is computed is another check's business
    if (kind == "assert" || kind == "exit") return;
    bool in = false; for (auto& f : s.fr) in |= M->funcs[f.fn].repo;
    if (!in && kind == "memory" && msg.find("free") == std::string::npos) return;
  }
  std::string lw = leafWhere(s);
  std::string key = kind + "|" + msg + "|" + lw;
  if (violSeen.count(key)) return;
  // full model of the path (including everything left out by slicing)
  std::vector<EP> c = s.cons; if (extra) c.push_back(extra);
  ModelP m; Res r = checkFull(c, &m);
  if (r == R_UNSAT) { warnings["inconsistent path at violation"]++; return; }
  if (r == R_UNK) m = s.model;
  violSeen.insert(key);
  Viol v{kind, msg, whereAmI(s), (int)viols.size()};
  char fn[512]; snprintf(fn, sizeof fn, "%s/cex_%d.txt", cexDir.c_str(), v.idx);
  FILE* f = fopen(fn, "w");
  if (f) {
    for (auto& p : params) fprintf(f, "param:%s %lld\n", p.first.c_str(), p.second);
    writeInputs(f, *m);
    fprintf(f, "# %s: %s\n# at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
    fclose(f);
  }
  viols.push_back(v);
}
static void violation(State& s, const std::string& kind, const std::string& msg, EP extra = nullptr) { report(s, kind, msg, extra); throw PathEnd(); }
static void incomplete(State& s, const std::string& why) { nIncomplete++; incompleteWhy[why]++; throw PathEnd(); }

static bool known(State& s, EP c, bool& v) {
  EP n = eNot(c);
  for (size_t i = s.cons.size(); i-- > 0;) { if (s.cons[i] == c) { v = true; return true; } if (s.cons[i] == n) { v = false; return true; } }
  return false;
}
static void pushCons(State& s, EP c) {
  if (c->op == K_AND && c->w == 1) { pushCons(s, c->a); pushCons(s, c->b); return; }
  if (!isC(c)) s.cons.push_back(c);
}
static bool decide(State& s, EP c) {
  if (isC(c)) return c->k != 0;
  if (c->undef) violation(s, "uninitialised", "a decision depends on an uninitialised value");
  bool v;
  if (known(s, c, v)) return v;
  v = evalE(c, *s.model) != 0;
  EP other = v ? eNot(c) : c, mine = v ? c : eNot(c);
  ModelP m2;
  Res r = checkSat(s.cons, other, s.model, &m2);
  if (r == R_SAT) {
    State* t = new State(s); pushCons(*t, other); t->cons.push_back(other); t->model = m2; t->depthForks++; work.push_back(t); nForks++;
    pushCons(s, mine); if (s.cons.empty() || s.cons.back() != mine) s.cons.push_back(mine);
  } else if (r == R_UNK) { nUnkBranch++; incompleteWhy["solver gave no answer on a branch (other side dropped)"]++; nIncomplete++; pushCons(s, mine); s.cons.push_back(mine); }
  return v;
}
static bool decide(State& s, Val v, int w) { if (!v.e) return v.c != 0; return decide(s, w == 1 ? v.e : eNot(eBin(K_EQ, v.e, eConst(0, w)))); }
// fork over all feasible values
static u64 concretize(State& s, Val v, int w) {
  if (!v.e) return v.c;
  for (int n = 0; n < 5000; n++) {
    if (isC(v.e)) return (u64)v.e->k;
    u128 x = evalE(v.e, *s.model);
    if (decide(s, eBin(K_EQ, v.e, eConst(x, w)))) return (u64)x;
  }
  incomplete(s, "too many values to enumerate");
  return 0;
}
static void assume(State& s, EP c) {
  if (isC(c)) { if (!c->k) { if (s.warm) throw Again(); nAssumeKill++; throw PathEnd(); } return; }
  if (evalE(c, *s.model)) { pushCons(s, c); return; }
  ModelP m; Res r = checkSat(s.cons, c, s.model, &m);
  if (r == R_SAT) { pushCons(s, c); s.model = m; return; }
  if (r == R_UNK) incomplete(s, "solver gave no answer on an assumption");
  nAssumeKill++; throw PathEnd();
}

// ------------------------------------------------------------------ memory
static ObjRef* slot(State& s, uint32_t id) {
  if (id >= ID_FUNC) return nullptr;
  if (id >= ID_STACK) return id - ID_STACK < s.stack.size() ? &s.stack[id - ID_STACK] : nullptr;
  if (id >= ID_HEAP) return id - ID_HEAP < s.heap.size() ? &s.heap[id - ID_HEAP] : nullptr;
  if (id >= ID_GLOBAL) return id - ID_GLOBAL < s.glob.size() ? &s.glob[id - ID_GLOBAL] : nullptr;
  return nullptr;
}
static uint32_t addrId(u64 a) { return (uint32_t)(a >> 32); }
static i64 addrOff(u64 a) { return (i64)(a & 0xffffffffull) - (i64)OFF0; }
static Obj* resolve(State& s, u64 a, u64 size, bool write, i64& off, const char* what) {
  ObjRef* r = slot(s, addrId(a));
  if (!r || !r->p) { char b[128]; snprintf(b, sizeof b, "%s through %s pointer", what, a < 4096 ? "a null" : addrId(a) >= ID_FUNC ? "a function" : "an invalid"); violation(s, "memory", b); }
  off = addrOff(a);
  Obj* o = r->p;
  if (o->freed) violation(s, "memory", std::string(what) + " after free");
  if (off < 0 || (u64)off + size > o->size) { char b[160]; snprintf(b, sizeof b, "%s out of bounds (%s object)", what, o->kind == 0 ? "global" : o->kind == 2 ? "stack" : "heap"); violation(s, "memory", b); }
  if (write) {
    if (o->ro) violation(s, "memory", "write to read-only data");
    if (o->rc > 1) { *r = ObjRef(cloneObj(o)); o = r->p; }
  }
  return o;
}
static u64 resolveSymAddr(State& s, Val a, u64 size, const char* what) {
  if (!a.e) return a.c;
  if (a.e->undef) violation(s, "uninitialised", "address depends on an uninitialised value");
  u64 c = (u64)evalE(a.e, *s.model);
  ObjRef* r = slot(s, addrId(c));
  if (r && r->p && !r->p->freed && addrOff(c) >= 0 && (u64)addrOff(c) + size <= r->p->size) {
    u64 lo = mkAddr(addrId(c), 0), hi = lo + r->p->size - size;
    EP inb = eBin(K_AND, eBin(K_ULE, eConst(lo, 64), a.e), eBin(K_ULE, a.e, eConst(hi, 64)));
    nHeapChecks++;
    decide(s, inb);    // the out-of-bounds side becomes its own path, which reports
  }
  return concretize(s, a, 64);
}
static EP freshUndef(State& s, int w) {
  char nm[48]; snprintf(nm, sizeof nm, "undef!%d!%d", s.undefCount++, w);
  static std::map<std::string, EP> tab; auto it = tab.find(nm); if (it != tab.end()) return it->second;
  uint32_t id = newVar(nm, w); gVars[id].undef = true; gVars[id].input = false; gVars[id].e->undef = true; tab[nm] = gVars[id].e; return gVars[id].e;
}
static inline EP byteE(State& s, Obj* o, i64 i) {
  uint8_t k = o->st ? o->st[i] : 0;
  if (k == 0) return eConst(o->data[i], 8);
  if (k == 1) return eExtract(o->sym[i].e, o->sym[i].i * 8, 8);
  return freshUndef(s, 8);
}
static Val loadObj(State& s, Obj* o, i64 off, int w) {
  int n = (w + 7) / 8;
  bool conc = !o->st;
  if (!conc) { conc = true; for (int i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; } }
  if (conc && n <= 8) { u64 x = 0; memcpy(&x, o->data + off, n); if (w < 64) x &= ((u64)1 << w) - 1; return Val{x, nullptr}; }
  if (conc) { u128 x = 0; memcpy(&x, o->data + off, n); return Val{0, eConst(x, w)}; }
  bool same = o->st[off] == 1 && o->sym[off].i == 0 && o->sym[off].e->w == (w == 1 ? 8 : w);
  for (int i = 1; same && i < n; i++) same = o->st[off + i] == 1 && o->sym[off + i].e == o->sym[off].e && o->sym[off + i].i == i;
  if (same) { EP e = o->sym[off].e; return fromE(w == 1 ? eExtract(e, 0, 1) : e); }
  bool allUndef = true; for (int i = 0; i < n; i++) if (o->st[off + i] != 2) { allUndef = false; break; }
  if (allUndef) return Val{0, freshUndef(s, w)};
  EP e = byteE(s, o, off);
  for (int i = 1; i < n; i++) e = eConcat(byteE(s, o, off + i), e);
  if (e->w > w) e = eExtract(e, 0, w);
  return fromE(e);
}
static void ensureSym(Obj* o) { if (!o->st) o->st = (uint8_t*)calloc(1, o->size + 16); if (!o->sym) o->sym = (SymB*)calloc(sizeof(SymB), o->size + 16); }
static void storeObj(Obj* o, i64 off, Val v, int w) {
  int n = (w + 7) / 8;
  if (!v.e) { u64 x = v.c; memcpy(o->data + off, &x, n); if (o->st) memset(o->st + off, 0, n); return; }
  if (isC(v.e)) { u128 x = v.e->k; memcpy(o->data + off, &x, n); if (o->st) memset(o->st + off, 0, n); return; }
  EP e = v.e; if (w == 1) e = eZext(e, 8);
  ensureSym(o);
  for (int i = 0; i < n; i++) {
    if (e->op == K_CONCAT || e->op == K_EXTRACT || e->op == K_ZEXT) {
      EP b = eExtract(e, i * 8, 8);
      if (isC(b)) { o->data[off + i] = (uint8_t)b->k; o->st[off + i] = 0; continue; }
      if (e->op == K_CONCAT) { o->st[off + i] = 1; if (b->op == K_EXTRACT && b->k % 8 == 0) { o->sym[off + i].e = b->a; o->sym[off + i].i = (uint8_t)(b->k / 8); } else { o->sym[off + i].e = b; o->sym[off + i].i = 0; } continue; }
    }
    o->st[off + i] = 1; o->sym[off + i].e = e; o->sym[off + i].i = (uint8_t)i;
  }
}
static void copyBytes(State& s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  i64 so, dof; Obj* a = resolve(s, src, n, false, so, "read");
  Obj tmp; tmp.size = n; tmp.data = (uint8_t*)malloc(n); memcpy(tmp.data, a->data + so, n);
  bool ns = false; if (a->st) for (u64 i = 0; i < n && !ns; i++) ns = a->st[so + i] != 0;
  if (ns) { tmp.st = (uint8_t*)malloc(n); memcpy(tmp.st, a->st + so, n); if (a->sym) { tmp.sym = (SymB*)malloc(sizeof(SymB) * n); memcpy(tmp.sym, a->sym + so, sizeof(SymB) * n); } }
  Obj* d = resolve(s, dst, n, true, dof, "write");
  memcpy(d->data + dof, tmp.data, n);
  if (ns) {
    if (!d->st) d->st = (uint8_t*)calloc(1, d->size + 16);
    memcpy(d->st + dof, tmp.st, n);
    if (tmp.sym) { ensureSym(d); memcpy((void*)(d->sym + dof), tmp.sym, sizeof(SymB) * n); }
  } else if (d->st) memset(d->st + dof, 0, n);
}
static EP loadByte(State& s, u64 a, const char* what = "read") { i64 o; Obj* p = resolve(s, a, 1, false, o, what); EP e = byteE(s, p, o); return e; }
static u64 allocHeap(State& s, u64 size, bool internal, bool undef) {
  s.heap.push_back(ObjRef(newObj(size, internal ? 3 : 1, undef)));
  if (!internal) s.live++;
  return mkAddr(ID_HEAP + (uint32_t)s.heap.size() - 1, 0);
}
static u64 allocStack(State& s, u64 size) { s.stack.push_back(ObjRef(newObj(size, 2, true))); return mkAddr(ID_STACK + (uint32_t)s.stack.size() - 1, 0); }
static void freeHeap(State& s, u64 a) {
  if (!a) return;
  ObjRef* r = slot(s, addrId(a));
  if (!r || !r->p || (r->p->kind != 1 && r->p->kind != 3)) violation(s, "memory", "free of a pointer that is not a heap block");
  if (r->p->freed) violation(s, "memory", "double free");
  if (addrOff(a) != 0) violation(s, "memory", "free of a pointer inside a block");
  bool internal = r->p->kind == 3;
  Obj* n = new Obj(); n->size = r->p->size; n->kind = r->p->kind; n->freed = true; n->data = (uint8_t*)calloc(1, 16);
  *r = ObjRef(n);
  if (!internal) s.live--;
}
// C string starting at a: returns length (forks while a symbolic byte may be NUL)
static u64 cstrlen(State& s, u64 a, u64 maxn = UINT64_MAX) {
  u64 n = 0;
  while (n < maxn) {
    i64 o; Obj* p = resolve(s, a + n, 1, false, o, "read");
    if (!p->st) { size_t k = strnlen((char*)p->data + o, p->size - o); n += k; if (n >= maxn) return maxn; if (k < p->size - o) return n; continue; }
    if (p->st[o] == 0) { if (p->data[o] == 0) return n; n++; continue; }
    EP b = byteE(s, p, o);
    if (decide(s, eBin(K_EQ, b, eConst(0, 8)))) return n;
    n++;
  }
  return maxn;
}
static std::string concStr(State& s, u64 a) {
  std::string r;
  for (;; a++) { EP b = loadByte(s, a); if (!isC(b)) { u64 c = concretize(s, Val{0, b}, 8); if (!c) break; r += (char)c; continue; } if (!b->k) break; r += (char)b->k; }
  return r;
}

// ------------------------------------------------------------------ formatted output / input
typedef std::vector<EP> Bytes;
static void putS(Bytes& b, const std::string& s) { for (unsigned char c : s) b.push_back(eConst(c, 8)); }
static const u128 P10(int n) { u128 r = 1; while (n--) r *= 10; return r; }
// decimal text of x (signed, any width <= 128); forks on sign and number of digits
static void decimal(State& s, EP x, Bytes& out, bool plus = false) {
  while (x->op == K_SEXT && x->a->w >= 32) x = x->a;   // the same number at another width has the same text
  int w = x->w;
  if (isC(x)) { i128 v = sextw(x->k, w); bool neg = v < 0; u128 a = neg ? (u128)0 - (u128)v : (u128)v; std::string t; do { t += (char)('0' + (int)(a % 10)); a /= 10; } while (a); if (neg) t += '-'; else if (plus) t += '+'; std::reverse(t.begin(), t.end()); putS(out, t); return; }
  bool neg = decide(s, eBin(K_SLT, x, eConst(0, w)));
  int maxd = w == 8 ? 3 : w == 16 ? 5 : w == 32 ? 10 : w == 64 ? 19 : 38;
  int n = 1;
  for (; n < maxd; n++) {
    EP lim = eConst(neg ? (u128)0 - P10(n) : P10(n), w);
    if (decide(s, neg ? eBin(K_SLT, lim, x) : eBin(K_SLT, x, lim))) break;
  }
  if (w > 64 && n == maxd) { EP lim = eConst(neg ? (u128)0 - P10(38) : P10(38), w); if (!decide(s, neg ? eBin(K_SLT, lim, x) : eBin(K_SLT, x, lim))) incomplete(s, "integer beyond 38 digits"); }
  if (neg) out.push_back(eConst('-', 8)); else if (plus) out.push_back(eConst('+', 8));
  for (int i = n - 1; i >= 0; i--) out.push_back(digitVar(x, neg, n, i));
}
struct VaList { u64 addr; u64 cur; };
static VaList vaOpen(State& s, u64 ap) { i64 o; Obj* p = resolve(s, ap, 24, false, o, "read"); VaList v; v.addr = ap; v.cur = loadObj(s, p, o + 8, 64).c; return v; }
static Val vaNext(State& s, VaList& v, int w) { i64 o; Obj* p = resolve(s, v.cur, 8, false, o, "variadic argument"); v.cur += 8; return loadObj(s, p, o, w); }
static void vformat(State& s, const std::string& fmt, VaList& va, Bytes& out) {
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out.push_back(eConst((uint8_t)fmt[i], 8)); continue; }
    i++;
    bool left = false, zero = false, plus = false;
    for (;; i++) { if (fmt[i] == '-') left = true; else if (fmt[i] == '0') zero = true; else if (fmt[i] == '+') plus = true; else if (fmt[i] == ' ' || fmt[i] == '#') ; else break; }
    long width = 0, prec = -1;
    if (fmt[i] == '*') { width = (int)concretize(s, vaNext(s, va, 32), 32); i++; if (width < 0) { left = true; width = -width; } } else while (isdigit(fmt[i])) width = width * 10 + (fmt[i++] - '0');
    if (fmt[i] == '.') { i++; prec = 0; if (fmt[i] == '*') { prec = (int)concretize(s, vaNext(s, va, 32), 32); i++; } else while (isdigit(fmt[i])) prec = prec * 10 + (fmt[i++] - '0'); }
    int w = 32;
    for (;; i++) { if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't') w = 64; else if (fmt[i] == 'h') w = w == 16 ? 8 : 16; else break; }
    Bytes b;
    switch (fmt[i]) {
      case '%': b.push_back(eConst('%', 8)); break;
      case 'c': { Val v = vaNext(s, va, 32); b.push_back(eExtract(toE(v, 32), 0, 8)); break; }
      case 'd': case 'i': { Val v = vaNext(s, va, w < 32 ? 32 : w); EP e = toE(v, w < 32 ? 32 : w); if (w < 32) e = eSext(eExtract(e, 0, w), 32); if (e->undef) violation(s, "uninitialised", "an uninitialised value is printed"); decimal(s, e, b, plus); break; }
      case 'u': { Val v = vaNext(s, va, w < 32 ? 32 : w); EP e = toE(v, w < 32 ? 32 : w); if (e->undef) violation(s, "uninitialised", "an uninitialised value is printed"); if (w <= 32) e = eZext(e, 64); else if (e->slo < 0 || isC(e)) e = eZext(e, 128); decimal(s, e, b); break; }
      case 'x': case 'X': case 'p': case 'o': { u64 c = concretize(s, vaNext(s, va, fmt[i] == 'p' ? 64 : w), fmt[i] == 'p' ? 64 : w); char t[40]; snprintf(t, sizeof t, fmt[i] == 'p' ? "0x%llx" : fmt[i] == 'x' ? "%llx" : fmt[i] == 'X' ? "%llX" : "%llo", (unsigned long long)c); putS(b, t); break; }
      case 's': {
        Val pv = vaNext(s, va, 64); u64 p = resolveSymAddr(s, pv, 1, "read");
        if (!p) { if (prec < 0 || prec >= 6) putS(b, "(null)"); break; }
        u64 n = cstrlen(s, p, prec >= 0 ? (u64)prec : UINT64_MAX);
        for (u64 k = 0; k < n; k++) b.push_back(loadByte(s, p + k));
        break; }
      default: incomplete(s, std::string("format directive %") + fmt[i]);
    }
    long pad = width - (long)b.size();
    if (!left) { char pc = zero && fmt[i] != 's' ? '0' : ' '; size_t at = 0; if (pc == '0' && !b.empty() && isC(b[0]) && b[0]->k == '-') { out.push_back(b[0]); at = 1; } while (pad-- > 0) out.push_back(eConst(pc, 8)); out.insert(out.end(), b.begin() + at, b.end()); }
    else { out.insert(out.end(), b.begin(), b.end()); while (pad-- > 0) out.push_back(eConst(' ', 8)); }
  }
}
static EP isSpaceE(EP b) { return eBin(K_OR, eBin(K_EQ, b, eConst(' ', 8)), eBin(K_AND, eBin(K_ULE, eConst(9, 8), b), eBin(K_ULE, b, eConst(13, 8)))); }
static EP isDigitE(EP b) { return eBin(K_AND, eBin(K_ULE, eConst('0', 8), b), eBin(K_ULE, b, eConst('9', 8))); }
static bool dec2(State& s, EP c) { return decide(s, c); }
// parse a decimal integer at p (after blanks); returns false when there is none. value is signed `w` bits wide;
// fixed widths saturate like strtol/strtoll.
static bool parseInt(State& s, u64& p, int w, EP& out, u64 maxc = UINT64_MAX, bool allowBase = false) {
  u64 q = p; bool neg = false; EP b = loadByte(s, q); u64 used = 0;
  if (used < maxc && dec2(s, eBin(K_EQ, b, eConst('-', 8)))) { neg = true; q++; used++; b = loadByte(s, q); }
  else if (used < maxc && dec2(s, eBin(K_EQ, b, eConst('+', 8)))) { q++; used++; b = loadByte(s, q); }
  Bytes d;
  while (used < maxc && dec2(s, isDigitE(b))) { d.push_back(b); q++; used++; b = loadByte(s, q); }
  if (d.empty()) return false;
  (void)allowBase;
  p = q;
  // a run of characters we printed ourselves: the definition of the digits gives the value back
  auto it = gDigitInfo.find(d[0]);
  if (it != gDigitInfo.end() && it->second.n == (int)d.size() && it->second.pos == it->second.n - 1) {
    DigitInfo g = it->second; bool ok = true;
    for (size_t i = 0; i < d.size() && ok; i++) { auto j = gDigitInfo.find(d[i]); ok = j != gDigitInfo.end() && j->second.x == g.x && j->second.neg == g.neg && j->second.n == g.n && j->second.pos == g.n - 1 - (int)i; }
    if (ok) {
      EP x = g.x; int W = std::max<int>(w, x->w);
      if (x->w < W) x = eSext(x, W);
      if (neg != g.neg) x = eBin(K_SUB, eConst(0, W), x);
      if (W > w && g.n > 18) {   // the text may not fit: saturate as strtol does
        EP mx = eConst(maskw(63), W), mn = eConst((u128)0 - ((u128)1 << 63), W);
        if (dec2(s, eBin(K_SLT, mx, x))) x = mx; else if (dec2(s, eBin(K_SLT, x, mn))) x = mn;
      }
      if (W > w) x = eExtract(x, 0, w);
      out = x; return true;
    }
  }
  bool conc = true; for (auto e : d) conc = conc && isC(e);
  size_t lead = 0; while (lead + 1 < d.size() && isC(d[lead]) && d[lead]->k == '0') lead++;
  size_t nd = d.size() - lead;
  if (nd > 37) { if (w > 64) incomplete(s, "integer text beyond 37 digits"); if (!conc) incomplete(s, "symbolic integer text beyond 37 digits"); out = eConst(neg ? (u128)1 << (w - 1) : maskw(w - 1), w); return true; }
  int vw = nd <= 18 && w <= 64 ? 64 : 128;
  EP v = eConst(0, vw);
  for (size_t i = lead; i < d.size(); i++) v = eBin(K_ADD, eBin(K_MUL, v, eConst(10, vw)), eBin(K_SUB, eZext(d[i], vw), eConst('0', vw)));
  if (neg) v = eBin(K_SUB, eConst(0, vw), v);
  if (w < vw) {
    if (vw == 128) {
      EP mx = eConst((u128)maskw(63), 128), mn = eConst((u128)0 - ((u128)1 << 63), 128);
      if (dec2(s, eBin(K_SLT, mx, v))) v = mx; else if (dec2(s, eBin(K_SLT, v, mn))) v = mn;
    }
    v = eExtract(v, 0, w);
  } else if (w > vw) v = eSext(v, w);
  out = v; return true;
}
static void skipSp(State& s, u64& p) { while (dec2(s, isSpaceE(loadByte(s, p)))) p++; }
struct Pending { u64 addr; Val v; int w; Bytes bytes; };
static int vscan(State& s, u64 p0, const std::string& fmt, VaList& va, i64& consumed) {
  u64 p = p0; int items = 0; std::vector<Pending> wr; bool fail = false, eof = false;
  auto atEnd = [&](u64 q) { return dec2(s, eBin(K_EQ, loadByte(s, q), eConst(0, 8))); };
  for (size_t i = 0; i < fmt.size() && !fail; i++) {
    unsigned char f = fmt[i];
    if (isspace(f)) { skipSp(s, p); continue; }
    if (f != '%') { if (!dec2(s, eBin(K_EQ, loadByte(s, p), eConst(f, 8)))) { if (items == 0 && atEnd(p)) eof = true; fail = true; break; } p++; continue; }
    i++; bool star = false; if (fmt[i] == '*') { star = true; i++; }
    u64 width = 0; while (isdigit((unsigned char)fmt[i])) width = width * 10 + (fmt[i++] - '0');
    u64 maxc = width ? width : UINT64_MAX;
    int w = 32; for (;; i++) { if (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 'q') w = 64; else if (fmt[i] == 'h') w = w == 16 ? 8 : 16; else break; }
    char c = fmt[i];
    if (c == 'n') { u64 a = vaNext(s, va, 64).c; wr.push_back({a, Val{(p - p0) & (u64)maskw(w), nullptr}, w, {}}); continue; }
    if (c == '%') { skipSp(s, p); if (!dec2(s, eBin(K_EQ, loadByte(s, p), eConst('%', 8)))) { fail = true; } else p++; continue; }
    if (c != 'c' && c != '[') skipSp(s, p);
    if (atEnd(p)) { fail = true; if (items == 0) eof = true; break; }
    if (c == 'd' || c == 'i' || c == 'u') {
      EP v; if (!parseInt(s, p, 64, v, maxc)) { fail = true; break; }
      if (!star) { u64 a = vaNext(s, va, 64).c; wr.push_back({a, fromE(w < 64 ? eExtract(v, 0, w) : v), w, {}}); items++; }
    } else if (c == 's' || c == 'c' || c == '[') {
      std::set<int> set; bool neg = false;
      if (c == '[') { i++; if (fmt[i] == '^') { neg = true; i++; } bool first = true; for (; i < fmt.size() && (first || fmt[i] != ']'); i++, first = false) { if (fmt[i + 1] == '-' && i + 2 < fmt.size() && fmt[i + 2] != ']') { for (int k = (unsigned char)fmt[i]; k <= (unsigned char)fmt[i + 2]; k++) set.insert(k); i += 2; } else set.insert((unsigned char)fmt[i]); } }
      Bytes b; if (c == 'c' && !width) maxc = 1;
      while (b.size() < maxc) {
        EP e = loadByte(s, p);
        if (dec2(s, eBin(K_EQ, e, eConst(0, 8)))) break;
        if (c == 's' && dec2(s, isSpaceE(e))) break;
        if (c == '[') { EP in = eFalse(); for (int k : set) in = eBin(K_OR, in, eBin(K_EQ, e, eConst(k, 8))); if (dec2(s, neg ? in : eNot(in))) break; }
        b.push_back(e); p++;
      }
      if (b.empty()) { fail = true; break; }
      if (!star) { if (c != 'c') b.push_back(eConst(0, 8)); u64 a = vaNext(s, va, 64).c; wr.push_back({a, Val{0, nullptr}, 0, b}); items++; }
    } else incomplete(s, std::string("scanf directive %") + c);
  }
  for (auto& x : wr) {
    if (x.w) { i64 o; Obj* ob = resolve(s, x.addr, x.w / 8, true, o, "write"); storeObj(ob, o, x.v, x.w); }
    else for (size_t k = 0; k < x.bytes.size(); k++) { i64 o; Obj* ob = resolve(s, x.addr + k, 1, true, o, "write"); storeObj(ob, o, fromE(x.bytes[k]), 8); }
  }
  consumed = (i64)(p - p0);
  return fail && eof && items == 0 ? -1 : items;
}

// ------------------------------------------------------------------ natives
typedef std::function<void(State&, Inst&, std::vector<Val>&, Val&)> Native;
static std::vector<std::pair<std::string, Native>> natives;
static u64 argAddr(State& s, Val v, u64 size = 1) { return resolveSymAddr(s, v, size, "access"); }
static EP strcmpE(State& s, u64 a, u64 b, u64 maxn, bool stopNul) {
  // collects byte pairs until both are certainly finished, then folds from the end
  std::vector<std::pair<EP, EP>> v;
  for (u64 i = 0; i < maxn; i++) {
    EP x = loadByte(s, a + i), y = loadByte(s, b + i);
    if (x->undef || y->undef) violation(s, "uninitialised", "comparison of uninitialised memory");
    v.push_back({x, y});
    if (isC(x) && isC(y)) { if (x->k != y->k) break; if (stopNul && x->k == 0) break; continue; }
    if (stopNul) {
      EP ne = eNot(eBin(K_EQ, x, y));
      if (isC(ne) && ne->k) break;
      // do we have to look further?  only when both can be equal and non-zero here
      EP z = eBin(K_EQ, x, eConst(0, 8));
      if (isC(x) && x->k == 0) break;
      if (isC(y) && y->k == 0) break;
      if (!isC(z)) { if (decide(s, z)) break; }
    }
  }
  EP r = eConst(0, 32);
  for (size_t i = v.size(); i-- > 0;) {
    EP x = v[i].first, y = v[i].second;
    r = eIte(eBin(K_EQ, x, y), r, eIte(eBin(K_ULT, x, y), eConst((u128)-1, 32), eConst(1, 32)));
  }
  return r;
}
static EP inRange(EP b, int lo, int hi) { int w = b->w; return eBin(K_AND, eBin(K_SLE, eConst(lo, w), b), eBin(K_SLE, b, eConst(hi, w))); }
static EP b32(EP c) { return eIte(c, eConst(1, 32), eConst(0, 32)); }
static uint32_t namedVar(State& s, const std::string& nm, int w, i64 lo, i64 hi, bool uns) {
  int k = s.occ[nm];
  std::string full = nm + "#" + std::to_string(k);
  auto it = named.find(full);
  if (it != named.end()) { Var& v = gVars[it->second]; if (v.w != w) { fprintf(stderr, "variable %s redeclared\n", full.c_str()); fflush(stderr); _Exit(2); }
    if (!uns && w <= 64 && (v.e->slo != lo || v.e->shi != hi)) {
      // the same name with another range on another path: separate variable
      std::string alt = full; 
      static std::map<std::string, uint32_t> altTab; char b[96]; snprintf(b, sizeof b, "@%lld:%lld", (long long)lo, (long long)hi); alt += b;
      auto jt = altTab.find(alt); if (jt != altTab.end()) return jt->second;
      uint32_t id = newVarS(alt, w, lo, hi); altTab[alt] = id; named[alt] = id; return id; }
    return it->second; }
  uint32_t id = w > 64 ? newVar(full, w) : uns ? newVarU(full, w, (u64)lo, (u64)hi) : newVarS(full, w, lo, hi);
  named[full] = id; return id;
}
// the fixed inputs of a warming run; replay.c computes the same ones
static i64 warmIn(State& s, const std::string& n, i64 lo, i64 hi) {
  u64 h = 1469598103934665603ull; for (unsigned char c : n) h = (h ^ c) * 1099511628211ull;
  h = (h ^ (u64)(s.occ[n]++ * 16 + s.warm)) * 1099511628211ull; h >>= 20;
  if (lo >= hi) return lo;
  if ((u64)hi - (u64)lo < 16) return lo + (i64)(h % ((u64)hi - (u64)lo + 1));
  i64 x = (i64)(h % 8) - 2; if (x < lo) x = lo + (i64)(h % 8); if (x > hi) x = hi - (i64)(h % 8);
  return x;
}
static void checkAssert(State& s, Val v, int w, const std::string& msg) {
  nAsserts++;
  EP c = v.e ? (w == 1 ? v.e : eNot(eBin(K_EQ, v.e, eConst(0, w)))) : (v.c ? eTrue() : eFalse());
  if (isC(c)) { if (!c->k) violation(s, "assert", msg); return; }
  if (c->undef) violation(s, "uninitialised", "asserted value is uninitialised: " + msg);
  nAssertsSolver++;
  ModelP m; Res r = checkSat(s.cons, eNot(c), s.model, &m);
  if (r == R_SAT) { State* keep = nullptr; (void)keep; s.model = m; EP n = eNot(c); report(s, "assert", msg, n); 
    // go on with the inputs for which it holds
    ModelP g; if (checkSat(s.cons, c, s.model, &g) == R_SAT) { s.model = g; pushCons(s, c); return; } throw PathEnd(); }
  if (r == R_UNK) { nAssertUnk++; incompleteWhy["solver gave no answer on: " + msg]++; }
}
static void setVal(State& s, u64 a, EP e) { i64 o; Obj* p = resolve(s, a, e->w / 8, true, o, "write"); storeObj(p, o, fromE(e), e->w); }

static void freezeCheck(State& s, const std::string& msg) {
  // every block frozen earlier must still be there with the same bytes
  for (auto& fz : s.frozen) {
    Obj* now = slot(s, fz.first)->p; Obj* old = fz.second.p;
    if (now == old) continue;
    if (now->freed) violation(s, "assert", msg + " (a block was released)");
    EP all = eTrue();
    for (u64 i = 0; i < old->size; i++) {
      uint8_t k1 = old->st ? old->st[i] : 0, k2 = now->st ? now->st[i] : 0;
      if (k1 == 2) continue;
      if (k2 == 2) violation(s, "assert", msg + " (made uninitialised)");
      all = eBin(K_AND, all, eBin(K_EQ, byteE(s, old, i), byteE(s, now, i)));
    }
    checkAssert(s, fromE(all), 1, msg);
  }
}

static void setupNatives() {
  auto add = [&](const char* n, Native f) { natives.push_back({n, f}); };
#define NAT(name) add(#name, [](State& s, Inst& I, std::vector<Val>& a, Val& r)
  auto mallocF = [](State& s, Inst& I, std::vector<Val>& a, Val& r) { u64 n = concretize(s, a[0], 64); if (n > (1ull << 28)) { r = Val{0, nullptr}; return; } r = Val{allocHeap(s, n, false, true), nullptr}; };
  add("malloc", mallocF);
  NAT(__sym_alloc) { u64 n = concretize(s, a[0], 64); r = Val{allocHeap(s, n, true, false), nullptr}; });
  NAT(__sym_free) { freeHeap(s, a[0].c); });
  NAT(calloc) { u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64); u128 t = (u128)n * m; if (t > (1ull << 28)) { r = Val{0, nullptr}; return; } r = Val{allocHeap(s, (u64)t, false, false), nullptr}; });
  NAT(free) { u64 p = argAddr(s, a[0], 0); freeHeap(s, p); });
  auto reallocF = [](State& s, Inst& I, std::vector<Val>& a, Val& r) {
    u64 p = a[0].e ? concretize(s, a[0], 64) : a[0].c; u64 n = concretize(s, a[1], 64);
    if (p == 0) { if (n > (1ull << 28)) { r = Val{0, nullptr}; return; } r = Val{allocHeap(s, n, false, true), nullptr}; return; }
    ObjRef* o = slot(s, addrId(p));
    if (!o || !o->p || (o->p->kind != 1 && o->p->kind != 3)) violation(s, "memory", "realloc of a pointer that is not a heap block");
    if (o->p->freed) violation(s, "memory", "realloc after free");
    if (addrOff(p) != 0) violation(s, "memory", "realloc of a pointer inside a block");
    if (n == 0) { freeHeap(s, p); r = Val{0, nullptr}; return; }
    if (n > (1ull << 28)) { r = Val{0, nullptr}; return; }
    u64 old = o->p->size; u64 q = allocHeap(s, n, o->p->kind == 3, true);
    copyBytes(s, q, p, std::min(old, n)); freeHeap(s, p); r = Val{q, nullptr}; };
  add("realloc", reallocF); add("__sym_realloc", reallocF);
  auto cpy = [](State& s, Inst& I, std::vector<Val>& a, Val& r) { u64 n = concretize(s, a[2], 64); if (n) { u64 d = argAddr(s, a[0], n), q = argAddr(s, a[1], n); copyBytes(s, d, q, n); } r = a[0]; };
  add("memcpy", cpy); add("memmove", cpy); add("llvm.memcpy", cpy); add("llvm.memmove", cpy);
  auto mset = [](State& s, Inst& I, std::vector<Val>& a, Val& r) {
    u64 n = concretize(s, a[2], 64); r = a[0]; if (!n) return; u64 d = argAddr(s, a[0], n); i64 o; Obj* p = resolve(s, d, n, true, o, "write");
    EP v = a[1].e ? eExtract(a[1].e, 0, 8) : eConst((u64)(uint8_t)a[1].c, 8);
    if (isC(v)) { memset(p->data + o, (int)v->k, n); if (p->st) memset(p->st + o, 0, n); } else for (u64 i = 0; i < n; i++) storeObj(p, o + i, Val{0, v}, 8); };
  add("memset", mset); add("llvm.memset", mset);
  NAT(memcmp) { u64 n = concretize(s, a[2], 64); if (!n) { r = Val{0, nullptr}; return; } r = fromE(strcmpE(s, argAddr(s, a[0]), argAddr(s, a[1]), n, false)); });
  NAT(strlen) { r = Val{cstrlen(s, argAddr(s, a[0])), nullptr}; });
  NAT(strnlen) { r = Val{cstrlen(s, argAddr(s, a[0]), concretize(s, a[1], 64)), nullptr}; });
  NAT(strcmp) { r = fromE(strcmpE(s, argAddr(s, a[0]), argAddr(s, a[1]), UINT64_MAX, true)); });
  NAT(strncmp) { u64 n = concretize(s, a[2], 64); r = n ? fromE(strcmpE(s, argAddr(s, a[0]), argAddr(s, a[1]), n, true)) : Val{0, nullptr}; });
  NAT(strcpy) { u64 d = argAddr(s, a[0]), q = argAddr(s, a[1]); u64 n = cstrlen(s, q); copyBytes(s, d, q, n + 1); r = a[0]; });
  NAT(stpcpy) { u64 d = argAddr(s, a[0]), q = argAddr(s, a[1]); u64 n = cstrlen(s, q); copyBytes(s, d, q, n + 1); r = Val{d + n, nullptr}; });
  NAT(strcat) { u64 d = argAddr(s, a[0]), q = argAddr(s, a[1]); u64 m = cstrlen(s, d), n = cstrlen(s, q); copyBytes(s, d + m, q, n + 1); r = a[0]; });
  NAT(strncat) { u64 d = argAddr(s, a[0]), q = argAddr(s, a[1]); u64 k = concretize(s, a[2], 64); u64 m = cstrlen(s, d), n = cstrlen(s, q, k); copyBytes(s, d + m, q, n); setVal(s, d + m + n, eConst(0, 8)); r = a[0]; });
  NAT(strncpy) { u64 k = concretize(s, a[2], 64); r = a[0]; if (!k) return; u64 d = argAddr(s, a[0]), q = argAddr(s, a[1]); u64 n = cstrlen(s, q, k); copyBytes(s, d, q, n); for (u64 i = n; i < k; i++) setVal(s, d + i, eConst(0, 8)); });
  NAT(strdup) { u64 q = argAddr(s, a[0]); u64 n = cstrlen(s, q); u64 d = allocHeap(s, n + 1, false, true); copyBytes(s, d, q, n + 1); r = Val{d, nullptr}; });
  NAT(strndup) { u64 q = argAddr(s, a[0]); u64 n = cstrlen(s, q, concretize(s, a[1], 64)); u64 d = allocHeap(s, n + 1, false, true); copyBytes(s, d, q, n); setVal(s, d + n, eConst(0, 8)); r = Val{d, nullptr}; });
  // character classes on int (no forking)
  auto cls = [&](const char* n, std::function<EP(EP)> f) { add(n, [f](State& s, Inst& I, std::vector<Val>& a, Val& r) { EP c = toE(a[0], 32); if (c->undef) violation(s, "uninitialised", "character class of an uninitialised value"); r = fromE(b32(f(c))); }); };
  cls("isspace", [](EP c) { return eBin(K_OR, eBin(K_EQ, c, eConst(' ', 32)), inRange(c, 9, 13)); });
  cls("isdigit", [](EP c) { return inRange(c, '0', '9'); });
  cls("isalpha", [](EP c) { return eBin(K_OR, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z')); });
  cls("isalnum", [](EP c) { return eBin(K_OR, inRange(c, '0', '9'), eBin(K_OR, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z'))); });
  cls("isupper", [](EP c) { return inRange(c, 'A', 'Z'); }); cls("islower", [](EP c) { return inRange(c, 'a', 'z'); });
  cls("isblank", [](EP c) { return eBin(K_OR, eBin(K_EQ, c, eConst(' ', 32)), eBin(K_EQ, c, eConst('\t', 32))); });
  cls("isprint", [](EP c) { return inRange(c, 32, 126); }); cls("isgraph", [](EP c) { return inRange(c, 33, 126); });
  cls("iscntrl", [](EP c) { return eBin(K_OR, inRange(c, 0, 31), eBin(K_EQ, c, eConst(127, 32))); });
  cls("ispunct", [](EP c) { return eBin(K_AND, inRange(c, 33, 126), eNot(eBin(K_OR, inRange(c, '0', '9'), eBin(K_OR, inRange(c, 'a', 'z'), inRange(c, 'A', 'Z'))))); });
  cls("isxdigit", [](EP c) { return eBin(K_OR, inRange(c, '0', '9'), eBin(K_OR, inRange(c, 'a', 'f'), inRange(c, 'A', 'F'))); });
  NAT(tolower) { EP c = toE(a[0], 32); r = fromE(eIte(inRange(c, 'A', 'Z'), eBin(K_ADD, c, eConst(32, 32)), c)); });
  NAT(toupper) { EP c = toE(a[0], 32); r = fromE(eIte(inRange(c, 'a', 'z'), eBin(K_SUB, c, eConst(32, 32)), c)); });
  auto absF = [](int w) { return [w](State& s, Inst& I, std::vector<Val>& a, Val& r) { EP x = toE(a[0], w); if (optUbSigned && decide(s, eBin(K_EQ, x, eConst((u128)1 << (w - 1), w)))) violation(s, "overflow", "absolute value of the smallest integer"); r = fromE(eIte(eBin(K_SLT, x, eConst(0, w)), eBin(K_SUB, eConst(0, w), x), x)); }; };
  add("abs", absF(32)); add("labs", absF(64)); add("llabs", absF(64));
  // text formatting primitives used by models/libc.c
  NAT(__sym_vformat) {   // char* __sym_vformat(const char* fmt, va_list ap, size_t* n)
    std::string fmt = concStr(s, argAddr(s, a[0])); VaList va = vaOpen(s, a[1].c); Bytes b; vformat(s, fmt, va, b);
    u64 d = allocHeap(s, b.size() + 1, true, false); i64 o; Obj* p = resolve(s, d, 1, true, o, "write");
    for (size_t i = 0; i < b.size(); i++) { if (isC(b[i])) p->data[i] = (uint8_t)b[i]->k; else storeObj(p, i, Val{0, b[i]}, 8); }
    setVal(s, a[2].c, eConst(b.size(), 64)); r = Val{d, nullptr}; });
  NAT(__sym_vscan) {     // int __sym_vscan(const char* s, const char* fmt, va_list ap, long* consumed)
    std::string fmt = concStr(s, argAddr(s, a[1])); VaList va = vaOpen(s, a[2].c); i64 c; u64 p = argAddr(s, a[0]);
    int n = vscan(s, p, fmt, va, c); setVal(s, a[3].c, eConst((u128)(i128)c, 64)); r = Val{(u64)(uint32_t)n, nullptr}; });
  NAT(__sym_strtoll) {   // long long (const char* s, char** end)
    u64 p0 = argAddr(s, a[0]), p = p0; skipSp(s, p); EP v; bool ok = parseInt(s, p, 64, v); if (!ok) { v = eConst(0, 64); p = p0; }
    if (!(a[1].c == 0 && !a[1].e)) setVal(s, a[1].c, eConst(p, 64)); r = fromE(v); });
  NAT(__sym_scan128) {   // int (const char* s, void* out16, long* consumed): -1 end of text, 0 no match, 1 ok
    u64 p0 = argAddr(s, a[0]), p = p0; skipSp(s, p); EP v; int rc;
    if (decide(s, eBin(K_EQ, loadByte(s, p), eConst(0, 8)))) rc = -1;
    else if (parseInt(s, p, 128, v)) { rc = 1; setVal(s, a[1].c, v); } else rc = 0;
    setVal(s, a[2].c, eConst(p - p0, 64)); r = Val{(u64)(uint32_t)rc, nullptr}; });
  NAT(__sym_dec128_len) { i64 o; Obj* p = resolve(s, a[0].c, 16, false, o, "read"); EP e = toE(loadObj(s, p, o, 128), 128); if (e->undef) violation(s, "uninitialised", "an uninitialised integer is printed"); Bytes b; decimal(s, e, b); r = Val{b.size(), nullptr}; });
  NAT(__sym_dec128) { i64 o; Obj* p = resolve(s, a[0].c, 16, false, o, "read"); EP e = toE(loadObj(s, p, o, 128), 128); Bytes b; decimal(s, e, b); u64 d = a[1].c; for (size_t i = 0; i < b.size(); i++) setVal(s, d + i, b[i]); setVal(s, d + b.size(), eConst(0, 8)); r = Val{b.size(), nullptr}; });
  NAT(__sym_is_symbolic) { r = Val{a[0].e && !isC(a[0].e) ? 1u : 0u, nullptr}; });
  NAT(__sym_incomplete) { incomplete(s, concStr(s, a[0].c)); });
  // termination
  NAT(exit) { nExits++; 
    if (s.exitMode == 0) violation(s, "exit", "the library stopped the program on a valid request");
    if (s.warm) throw Again();
    exitReach["exit"]++; throw PathEnd(); });
  NAT(_exit) { if (s.exitMode == 0) violation(s, "exit", "the library stopped the program on a valid request"); throw PathEnd(); });
  NAT(abort) { violation(s, "abort", "abort called"); });
  NAT(__assert_fail) { violation(s, "abort", "assertion in the library failed: " + concStr(s, a[0].c)); });
  NAT(getenv_unused) { r = Val{0, nullptr}; });
  // harness interface
  NAT(sym_i64) { std::string n = concStr(s, a[0].c); i64 lo = (i64)a[1].c, hi = (i64)a[2].c; if (s.warm) { r = Val{(u64)warmIn(s, n, lo, hi), nullptr}; return; } uint32_t v = namedVar(s, n, 64, lo, hi, false); s.occ[n]++; r = lo == hi ? Val{(u64)lo, nullptr} : fromE(gVars[v].e); });
  NAT(sym_int) { std::string n = concStr(s, a[0].c); i64 lo = (int)a[1].c, hi = (int)a[2].c; if (s.warm) { r = Val{(u64)(uint32_t)warmIn(s, n, lo, hi), nullptr}; return; } uint32_t v = namedVar(s, n, 32, lo, hi, false); s.occ[n]++; r = lo == hi ? Val{(u64)(uint32_t)lo, nullptr} : fromE(gVars[v].e); });
  NAT(sym_i128) { std::string n = concStr(s, a[0].c); if (s.warm) { setVal(s, a[1].c, eConst((u128)(i128)warmIn(s, n, -100, 100), 128)); return; } uint32_t v = namedVar(s, n, 128, 0, 0, false); s.occ[n]++; setVal(s, a[1].c, gVars[v].e); });
  NAT(sym_ch) {   // char sym_ch(const char* name, const char* set)
    std::string n = concStr(s, a[0].c), set = concStr(s, a[1].c); if (s.warm) { r = Val{(u64)(unsigned char)set[warmIn(s, n, 0, (i64)set.size() - 1)], nullptr}; return; } bool in[256] = {}; for (unsigned char c : set) in[c] = true;
    int lo = 255, hi = 0; for (int i = 0; i < 256; i++) if (in[i]) { lo = std::min(lo, i); hi = std::max(hi, i); }
    uint32_t v = namedVar(s, n, 8, lo, hi, true); EP e = gVars[v].e; EP ok = eFalse();
    for (int i = 0; i < 256;) { if (!in[i]) { i++; continue; } int j = i; while (j < 256 && in[j]) j++; ok = eBin(K_OR, ok, i + 1 == j ? eBin(K_EQ, e, eConst(i, 8)) : eBin(K_AND, eBin(K_ULE, eConst(i, 8), e), eBin(K_ULE, e, eConst(j - 1, 8)))); i = j; }
    assume(s, ok); s.occ[n]++; r = fromE(e); });
  NAT(sym_byte) { std::string n = concStr(s, a[0].c); if (s.warm) { r = Val{(u64)warmIn(s, n, 97, 122), nullptr}; return; } uint32_t v = namedVar(s, n, 8, 0, 255, true); s.occ[n]++; r = fromE(gVars[v].e); });
  NAT(sym_pick) {   // a fresh variable of known range: one state for each value, no solver needed
    std::string n = concStr(s, a[0].c); i64 k = (int)a[1].c; if (s.warm) { r = Val{(u64)warmIn(s, n, 0, k - 1), nullptr}; return; } uint32_t v = namedVar(s, n, 32, 0, k - 1, false); i64 c = 0;
    if (s.forced >= 0) { c = s.forced; s.forced = -1; }
    else if (k > 1) {
      auto with = [&](State& t, i64 x) { EP f = eBin(K_EQ, gVars[v].e, eConst((u128)x, 32)); t.cons.push_back(f); auto m = std::make_shared<Model>(*s.model); m->v[v] = (u128)x; return m; };
      for (i64 x = k - 1; x >= 1; x--) { State* t = new State(s); t->model = with(*t, x); t->forced = x; t->depthForks++; work.push_back(t); nForks++; }
      s.model = with(s, 0); }
    s.occ[n]++; r = Val{(u64)c, nullptr}; });
  NAT(sym_concrete) { r = Val{concretize(s, a[0], 64), nullptr}; });
  NAT(sym_assume) { EP c = a[0].e ? eNot(eBin(K_EQ, a[0].e, eConst(0, 32))) : (a[0].c ? eTrue() : eFalse()); assume(s, c); });
  NAT(sym_assert) { checkAssert(s, a[0], 32, concStr(s, a[1].c)); });
  NAT(sym_reach) { reached[concStr(s, a[0].c)]++; });
  NAT(sym_param) { std::string n = concStr(s, a[0].c); auto it = params.find(n); r = it == params.end() ? a[1] : Val{(u64)it->second, nullptr}; });
  NAT(sym_exit_ok) { s.exitMode = (int)a[0].c; });
  NAT(sym_heap_live) { r = Val{(u64)s.live, nullptr}; });
  NAT(sym_leak_check) { if ((i64)a[0].c != s.live) violation(s, "leak", "memory is still allocated after everything was released"); nAsserts++; });
  NAT(sym_common) {   // how many bytes at the start of two texts are known, equal and not the end
    u64 n = 0; i64 o, q; Obj *x = resolve(s, a[0].c, 1, false, o, "read"), *y = resolve(s, a[1].c, 1, false, q, "read");
    while (o < (i64)x->size && q < (i64)y->size && (!x->st || !x->st[o]) && (!y->st || !y->st[q]) && x->data[o] == y->data[q] && x->data[o]) { n++; o++; q++; }
    r = Val{n, nullptr}; });
  NAT(__sym_linespan) {   // how many bytes of the first n are known and not a newline
    u64 n = 0, m = a[1].e ? 0 : a[1].c; if (!m) { r = Val{0, nullptr}; return; } i64 o; Obj* x = resolve(s, a[0].c, 1, false, o, "read");
    while (n < m && o < (i64)x->size && (!x->st || !x->st[o]) && x->data[o] != 10) { n++; o++; }
    r = Val{n, nullptr}; });
  NAT(sym_freeze) { s.frozen.clear(); for (size_t i = 0; i < s.heap.size(); i++) if (s.heap[i].p && !s.heap[i].p->freed && s.heap[i].p->kind == 1) s.frozen.push_back({ID_HEAP + (uint32_t)i, s.heap[i]}); });
  NAT(sym_unchanged) { struct G { G() { inFreezeCheck = true; } ~G() { inFreezeCheck = false; } } g; freezeCheck(s, concStr(s, a[0].c)); });
  NAT(sym_thaw) { s.frozen.clear(); });
  NAT(sym_done) { if (s.warm) throw Again(); throw PathEnd(); });
  NAT(sym_trace) { fprintf(stderr, "TRACE %s %s\n", concStr(s, a[0].c).c_str(), a[1].e ? show(a[1].e).c_str() : std::to_string((i64)a[1].c).c_str()); });
  NAT(sym_budget) { maxInstPath = (u64)a[0].c; });
#undef NAT
}
static std::map<std::string, int> natIdx;

// intrinsics handled by prefix
static bool starts(const std::string& a, const char* b) { return a.compare(0, strlen(b), b) == 0; }
static int classify(const std::string& n) {   // negative: built-in kinds
  auto it = natIdx.find(n);
  if (it != natIdx.end()) return it->second;
  for (auto p : {"llvm.memcpy", "llvm.memmove", "llvm.memset"}) if (starts(n, p)) return natIdx[p];
  if (starts(n, "llvm.dbg") || starts(n, "llvm.lifetime") || n == "llvm.va_end" || n == "llvm.va_end.p0" || starts(n, "llvm.stackrestore") || starts(n, "llvm.assume") || starts(n, "llvm.donothing") || starts(n, "llvm.experimental.noalias")) return -10;
  if (starts(n, "llvm.va_start")) return -11;
  if (starts(n, "llvm.va_copy")) return -12;
  if (starts(n, "llvm.stacksave")) return -13;
  if (starts(n, "llvm.trap") || starts(n, "llvm.ubsantrap")) return -14;
  if (starts(n, "llvm.expect")) return -15;
  if (starts(n, "llvm.objectsize")) return -16;
  if (n.find(".with.overflow.") != std::string::npos) return -17;
  if (starts(n, "llvm.abs.")) return -18;
  if (starts(n, "llvm.smax.") || starts(n, "llvm.smin.") || starts(n, "llvm.umax.") || starts(n, "llvm.umin.")) return -19;
  if (starts(n, "llvm.ctpop") || starts(n, "llvm.ctlz") || starts(n, "llvm.cttz") || starts(n, "llvm.bswap")) return -20;
  if (starts(n, "llvm.is.constant")) return -21;
  return -1;
}
static EP binE(State& s, Op op, EP a, EP b, Inst& I) {
  int w = a->w;
  if (op == K_UDIV || op == K_SDIV || op == K_UREM || op == K_SREM) {
    EP z = eBin(K_EQ, b, eConst(0, w));
    if (decide(s, z)) violation(s, "arithmetic", "division by zero");
    if (op == K_SDIV || op == K_SREM) {
      EP ov = eBin(K_AND, eBin(K_EQ, a, eConst((u128)1 << (w - 1), w)), eBin(K_EQ, b, eConst(maskw(w), w)));
      if (decide(s, ov)) violation(s, "arithmetic", "division overflow (smallest integer divided by -1)");
    }
  }
  if (optUbSigned && I.nsw && (op == K_ADD || op == K_SUB || op == K_MUL) && w <= 64 && M->funcs[s.fr.back().fn].repo) {
    EP wide = eBin(op, eSext(a, 2 * w > 128 ? 128 : 2 * w), eSext(b, 2 * w > 128 ? 128 : 2 * w));
    EP res = eBin(op, a, b);
    EP ov = eNot(eBin(K_EQ, wide, eSext(res, wide->w)));
    if (!isC(ov) || ov->k) {
      // cheaper formulations for add/sub
      if (op == K_ADD || op == K_SUB) {
        EP sa = eBin(K_SLT, a, eConst(0, w)), sb = eBin(K_SLT, b, eConst(0, w)), sr = eBin(K_SLT, res, eConst(0, w));
        EP same = op == K_ADD ? eBin(K_EQ, sa, sb) : eNot(eBin(K_EQ, sa, sb));
        ov = eBin(K_AND, same, eNot(eBin(K_EQ, sr, sa)));
      }
      if (decide(s, ov)) violation(s, "overflow", "signed integer overflow (undefined behaviour)");
    }
  }
  return eBin(op, a, b);
}
static void enter(State& s, int fi, std::vector<Val>& args, int retDst, Inst* call) {
  Function& fn = M->funcs[fi]; fn.calls++;
  if (s.fr.size() > 3000) violation(s, "hang", "call depth exceeded");
  Frame f; f.fn = fi; f.pc = 0; f.base = (int)s.regs.size(); f.stackMark = s.stack.size(); f.retDst = retDst;
  s.regs.resize(f.base + fn.nregs, Val{0, nullptr});
  for (int i = 0; i < fn.nparams && i < (int)args.size(); i++) s.regs[f.base + i] = args[i];
  if (fn.variadic) for (size_t i = fn.nparams; i < args.size(); i++) f.varargs.push_back(args[i]);
  s.fr.push_back(std::move(f));
  if (call) for (u64 bv : call->cases) { size_t k = bv >> 32; u64 sz = bv & 0xffffffff; u64 d = allocStack(s, sz); copyBytes(s, d, args[k].c, sz);
      if ((int)k < fn.nparams) s.regs[s.fr.back().base + k] = Val{d, nullptr}; else s.fr.back().varargs[k - fn.nparams] = Val{d, nullptr}; }
}
static void takeEdge(State& s, Frame& f, Edge& e) {
  if (!e.copies.empty()) {
    if (e.copies.size() == 1) s.regs[f.base + e.copies[0].dst] = getOp(s, f.base, e.copies[0].src);
    else { Val tmp[64]; size_t n = e.copies.size(); std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) t[i] = getOp(s, f.base, e.copies[i].src);
      for (size_t i = 0; i < n; i++) s.regs[f.base + e.copies[i].dst] = t[i]; }
  }
  f.pc = e.target;
}
static u64 errAddr = 0;                 // what `stderr` points to
static void doCall(State& s, Inst& I) {
  Frame& f = s.fr.back(); int base = f.base;
  std::vector<Val> args; args.reserve(I.args.size());
  for (int o : I.args) args.push_back(getOp(s, base, o));
  int ci = I.callee;
  if (ci < 0) {
    Val t = getOp(s, base, I.a); u64 ad = t.e ? concretize(s, t, 64) : t.c;
    if (t.e && t.e->undef) violation(s, "uninitialised", "call through an uninitialised pointer");
    if (addrId(ad) < ID_FUNC || addrOff(ad) != 0 || addrId(ad) - ID_FUNC >= M->funcs.size()) violation(s, "memory", "call through a null or invalid function pointer");
    ci = (int)(addrId(ad) - ID_FUNC);
  }
  Function& fn = M->funcs[ci];
  int dst = I.dst;
  if (fn.native >= 0) {
    Val r{0, nullptr};
    // native declared narrower than 64: mask results
    natives[fn.native].second(s, I, args, r);
    if (dst >= 0) { if (!r.e && fn.retw > 0 && fn.retw < 64) r.c &= (u64)maskw(fn.retw); s.regs[s.fr.back().base + dst] = r; }
    s.fr.back().pc++;
    return;
  }
  // diagnostics on standard error: what the library's dump and print functions write there is not modelled
  if (fn.defined && fn.repo && fn.retw == 0 && fn.nret == 0 && !args.empty() && !args[0].e && args[0].c && args[0].c == errAddr && (fn.name.find("dump") != std::string::npos || fn.name.find("print") != std::string::npos)) { f.pc++; return; }
  if (fn.defined) { f.pc++; enter(s, ci, args, dst, &I); return; }
  auto setR = [&](Val v) { if (dst >= 0) s.regs[base + dst] = v; };
  switch (fn.native) {
    case -10: break;
    case -11: { // va_start: everything lives in the overflow area
      u64 area = allocStack(s, 8 * f.varargs.size() + 8);
      std::vector<Val> va = s.fr.back().varargs;
      i64 o; Obj* p = resolve(s, area, 8, true, o, "write");
      for (size_t i = 0; i < va.size(); i++) { if (va[i].e) { EP e = va[i].e; if (e->w < 64) e = eZext(e, 64); storeObj(p, 8 * i, Val{0, e}, 64); } else storeObj(p, 8 * i, va[i], 64); }
      u64 ap = args[0].c; setVal(s, ap, eConst(48, 32)); setVal(s, ap + 4, eConst(304, 32)); setVal(s, ap + 8, eConst(area, 64)); setVal(s, ap + 16, eConst(0, 64)); break; }
    case -12: copyBytes(s, args[0].c, args[1].c, 24); break;
    case -13: setR(Val{0, nullptr}); break;
    case -14: violation(s, "abort", "trap"); break;
    case -15: setR(args[0]); break;
    case -16: setR(Val{(u64)maskw(fn.retw), nullptr}); break;
    case -17: {
      int w = I.argw[0]; bool sg = fn.name[5] == 's'; Op op = fn.name.find("add") != std::string::npos ? K_ADD : fn.name.find("sub") != std::string::npos ? K_SUB : K_MUL;
      EP a = toE(args[0], w), b = toE(args[1], w), r = eBin(op, a, b), ov;
      if (op == K_MUL || !sg) { int W = w * 2 > 128 ? 128 : w * 2; if (w > 64) incomplete(s, "128-bit overflow intrinsic"); EP A = sg ? eSext(a, W) : eZext(a, W), B = sg ? eSext(b, W) : eZext(b, W); ov = eNot(eBin(K_EQ, eBin(op, A, B), sg ? eSext(r, W) : eZext(r, W))); }
      else { EP sa = eBin(K_SLT, a, eConst(0, w)), sb = eBin(K_SLT, b, eConst(0, w)), sr = eBin(K_SLT, r, eConst(0, w)); EP same = op == K_ADD ? eBin(K_EQ, sa, sb) : eNot(eBin(K_EQ, sa, sb)); ov = eBin(K_AND, same, eNot(eBin(K_EQ, sr, sa))); }
      s.regs[base + dst] = fromE(r); s.regs[base + dst + 1] = fromE(ov); break; }
    case -18: { int w = I.argw[0]; EP x = toE(args[0], w); setR(fromE(eIte(eBin(K_SLT, x, eConst(0, w)), eBin(K_SUB, eConst(0, w), x), x))); break; }
    case -19: { int w = I.argw[0]; EP x = toE(args[0], w), y = toE(args[1], w); bool sg = fn.name[5] == 's', mx = fn.name[7] == 'a'; EP lt = eBin(sg ? K_SLT : K_ULT, x, y); setR(fromE(mx ? eIte(lt, y, x) : eIte(lt, x, y))); break; }
    case -20: { int w = I.argw[0]; u64 x = concretize(s, args[0], w); u64 r = 0; if (starts(fn.name, "llvm.ctpop")) r = __builtin_popcountll(x); else if (starts(fn.name, "llvm.ctlz")) r = x ? __builtin_clzll(x) - (64 - w) : w; else if (starts(fn.name, "llvm.cttz")) r = x ? __builtin_ctzll(x) : w; else { for (int i = 0; i < w / 8; i++) r |= ((x >> (8 * i)) & 255) << (w - 8 - 8 * i); } setR(Val{r, nullptr}); break; }
    case -21: setR(Val{0, nullptr}); break;
    default: incomplete(s, "call of a function without a model: " + fn.name);
  }
  s.fr.back().pc++;
}

static void step(State& s) {
  Frame& f = s.fr.back(); Function& fn = M->funcs[f.fn]; Inst& I = fn.code[f.pc]; int base = f.base;
  hit[f.fn][f.pc] = 1; fn.insts++;
  s.insts++; nInsts++;
#define A_ getOp(s, base, I.a)
#define B_ getOp(s, base, I.b)
  switch (I.op) {
    case I_NOP: f.pc++; return;
    case I_BIN: {
      Val a = A_, b = B_; int w = I.w;
      if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c, r = 0, m = w == 64 ? ~0ull : ((u64)1 << w) - 1; i64 sx = (i64)(w == 64 ? x : (x ^ ((u64)1 << (w - 1))) - ((u64)1 << (w - 1))), sy = (i64)(w == 64 ? y : (y ^ ((u64)1 << (w - 1))) - ((u64)1 << (w - 1)));
        switch (I.bop) {
          case K_ADD: r = x + y; if (optUbSigned && I.nsw && fn.repo) { i128 t = (i128)sx + sy; if (t != (i128)sextw((u128)t, w)) violation(s, "overflow", "signed integer overflow (undefined behaviour)"); } break;
          case K_SUB: r = x - y; if (optUbSigned && I.nsw && fn.repo) { i128 t = (i128)sx - sy; if (t != (i128)sextw((u128)t, w)) violation(s, "overflow", "signed integer overflow (undefined behaviour)"); } break;
          case K_MUL: r = x * y; if (optUbSigned && I.nsw && fn.repo) { i128 t = (i128)sx * sy; if (t != (i128)sextw((u128)t, w)) violation(s, "overflow", "signed integer overflow (undefined behaviour)"); } break;
          case K_UDIV: if (!y) violation(s, "arithmetic", "division by zero"); r = x / y; break;
          case K_UREM: if (!y) violation(s, "arithmetic", "division by zero"); r = x % y; break;
          case K_SDIV: case K_SREM: if (!y) violation(s, "arithmetic", "division by zero"); if (sy == -1) { if (x == ((u64)1 << (w - 1))) violation(s, "arithmetic", "division overflow (smallest integer divided by -1)"); r = I.bop == K_SDIV ? (u64)-sx : 0; } else r = (u64)(I.bop == K_SDIV ? sx / sy : sx % sy); break;
          case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break;
          case K_SHL: r = y >= (u64)w ? 0 : x << y; break; case K_LSHR: r = y >= (u64)w ? 0 : x >> y; break; case K_ASHR: r = (u64)(sx >> (y >= (u64)w ? w - 1 : y)); break;
          default: abort();
        }
        s.regs[base + I.dst] = Val{r & m, nullptr};
      } else { EP r = binE(s, I.bop, toE(a, w), toE(b, w), I); s.regs[base + I.dst] = fromE(r); }
      f.pc++; return; }
    case I_ICMP: {
      Val a = A_, b = B_; int w = I.w;
      if (!a.e && !b.e) {
        u64 x = a.c, y = b.c; u64 sb = (u64)1 << (w - 1); i64 sx = (i64)(w == 64 ? x : (x ^ sb) - sb), sy = (i64)(w == 64 ? y : (y ^ sb) - sb); bool r = false;
        switch (I.pred) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = sx > sy; break; case P_SGE: r = sx >= sy; break; case P_SLT: r = sx < sy; break; case P_SLE: r = sx <= sy; break; }
        s.regs[base + I.dst] = Val{r, nullptr};
      } else {
        EP x = toE(a, w), y = toE(b, w), r = nullptr;
        switch (I.pred) { case P_EQ: r = eBin(K_EQ, x, y); break; case P_NE: r = eNot(eBin(K_EQ, x, y)); break; case P_UGT: r = eBin(K_ULT, y, x); break; case P_UGE: r = eBin(K_ULE, y, x); break; case P_ULT: r = eBin(K_ULT, x, y); break; case P_ULE: r = eBin(K_ULE, x, y); break; case P_SGT: r = eBin(K_SLT, y, x); break; case P_SGE: r = eBin(K_SLE, y, x); break; case P_SLT: r = eBin(K_SLT, x, y); break; case P_SLE: r = eBin(K_SLE, x, y); break; }
        s.regs[base + I.dst] = fromE(r);
      }
      f.pc++; return; }
    case I_ZEXT: { Val a = A_; if (a.e || I.w2 > 64) s.regs[base + I.dst] = fromE(eZext(toE(a, I.w), I.w2)); else s.regs[base + I.dst] = a; f.pc++; return; }
    case I_SEXT: { Val a = A_; if (a.e || I.w2 > 64) s.regs[base + I.dst] = fromE(eSext(toE(a, I.w), I.w2)); else s.regs[base + I.dst] = Val{(u64)sextw(a.c, I.w) & (u64)maskw(I.w2), nullptr}; f.pc++; return; }
    case I_TRUNC: { Val a = A_; if (a.e) s.regs[base + I.dst] = fromE(eExtract(a.e, 0, I.w2)); else s.regs[base + I.dst] = Val{a.c & (u64)maskw(I.w2), nullptr}; f.pc++; return; }
    case I_COPY: s.regs[base + I.dst] = A_; f.pc++; return;
    case I_LOAD: {
      int total = 0; for (auto& l : I.leaves) total = std::max(total, l.off + (l.w + 7) / 8);
      u64 a = resolveSymAddr(s, A_, total, "read"); i64 off; Obj* o = resolve(s, a, total, false, off, "read");
      for (size_t j = 0; j < I.leaves.size(); j++) { Val v = loadObj(s, o, off + I.leaves[j].off, I.leaves[j].w); s.regs[base + I.dst + j] = v; }
      f.pc++; return; }
    case I_STORE: {
      int total = 0; for (auto& l : I.leaves) total = std::max(total, l.off + (l.w + 7) / 8);
      u64 a = resolveSymAddr(s, A_, total, "write"); i64 off; Obj* o = resolve(s, a, total, true, off, "write");
      for (size_t j = 0; j < I.leaves.size(); j++) { int op = I.b >= 0 ? I.b + (int)j : I.b - (int)j; storeObj(o, off + I.leaves[j].off, getOp(s, base, op), I.leaves[j].w); }
      f.pc++; return; }
    case I_GEP: {
      Val a = A_; u64 c = (u64)I.imm; EP e = nullptr;
      for (auto& x : I.idx) { Val v = getOp(s, base, x.opnd); if (!v.e) c += (u64)((i64)sextw(v.c, x.w) * x.scale); else { EP t = eBin(K_MUL, eSext(v.e, 64), eConst((u128)(i128)x.scale, 64)); e = e ? eBin(K_ADD, e, t) : t; } }
      if (!a.e && !e) s.regs[base + I.dst] = Val{a.c + c, nullptr};
      else { EP b = eBin(K_ADD, toE(a, 64), eConst(c, 64)); if (e) b = eBin(K_ADD, b, e); s.regs[base + I.dst] = fromE(b); }
      f.pc++; return; }
    case I_ALLOCA: { u64 n = concretize(s, A_, I.w); u64 d = allocStack(s, n * (u64)I.imm); s.regs[base + I.dst] = Val{d, nullptr}; s.fr.back().pc++; return; }
    case I_SELECT: {
      Val c = A_;
      if (!c.e) s.regs[base + I.dst] = c.c ? B_ : getOp(s, base, I.c);
      else { if (c.e->undef) violation(s, "uninitialised", "a decision depends on an uninitialised value"); s.regs[base + I.dst] = fromE(eIte(c.e, toE(B_, I.w), toE(getOp(s, base, I.c), I.w))); }
      f.pc++; return; }
    case I_INSERTVALUE: { std::vector<Val> t; for (int o : I.args) t.push_back(getOp(s, base, o)); for (size_t j = 0; j < t.size(); j++) s.regs[base + I.dst + j] = t[j]; f.pc++; return; }
    case I_BR: takeEdge(s, f, I.edges[0]); return;
    case I_CONDBR: { Val c = A_; bool t = c.e ? decide(s, c.e) : c.c != 0; takeEdge(s, s.fr.back(), I.edges[t ? 0 : 1]); return; }
    case I_SWITCH: {
      Val c = A_; size_t k = 0;
      if (!c.e) { for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == c.c) { k = i + 1; break; } }
      else for (size_t i = 0; i < I.cases.size(); i++) if (decide(s, eBin(K_EQ, c.e, eConst(I.cases[i], I.w)))) { k = i + 1; break; }
      takeEdge(s, s.fr.back(), I.edges[k]); return; }
    case I_CALL: doCall(s, I); return;
    case I_RET: {
      Val t[16]; size_t n = I.args.size(); if (n > 16) incomplete(s, "large aggregate return");
      for (size_t j = 0; j < n; j++) t[j] = getOp(s, base, I.args[j]);
      int rd = f.retDst; s.regs.resize(base); while (s.stack.size() > f.stackMark) s.stack.pop_back(); s.fr.pop_back();
      if (s.fr.empty()) { if (s.warm) throw Again(); s.done = true; return; }
      if (rd >= 0) for (size_t j = 0; j < n; j++) s.regs[s.fr.back().base + rd + j] = t[j];
      return; }
    case I_UNREACHABLE: throw PathEnd();
    default: incomplete(s, "unsupported instruction: " + I.what);
  }
}

static std::string jstr(const std::string& x) { std::string r = "\""; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

int main(int argc, char** argv) {
  std::string bc, entry = "harness"; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--time") maxTime = atof(nx().c_str()); else if (a == "--max-paths") maxPaths = atoll(nx().c_str());
    else if (a == "--max-insts") maxInstPath = atoll(nx().c_str()); else if (a == "--cex") cexDir = nx(); else if (a == "--out") outFile = nx();
    else if (a == "--ub-signed") optUbSigned = true; else if (a == "--only-memory") optOnlyMem = true; else if (a == "--only-changed") optOnlyChanged = true; else if (a == "--solver-ms") gSolverTimeoutMs = atoi(nx().c_str()); else if (a == "--max-viol") maxViol = atoi(nx().c_str());
    else if (a == "-p") { std::string kv = nx(); size_t q = kv.find('='); params[kv.substr(0, q)] = atoll(kv.c_str() + q + 1); }
    else bc = a;
  }
  M = loadModule(bc.c_str());
  setupNatives();
  for (size_t i = 0; i < natives.size(); i++) natIdx[natives[i].first] = (int)i;
  for (auto& f : M->funcs) { f.native = f.defined ? -1 : classify(f.name); f.repo = f.file.find("/source/") != std::string::npos; if (!f.defined) f.repo = false; }
  hit.resize(M->funcs.size()); for (size_t i = 0; i < M->funcs.size(); i++) hit[i].assign(M->funcs[i].code.size(), 0);
  State* s0 = new State(); s0->model = std::make_shared<Model>();
  for (auto& g : M->globals) { Obj* o = newObj(g.size, 0, false); memcpy(o->data, g.bytes.data(), g.bytes.size()); o->ro = g.constant; s0->glob.push_back(ObjRef(o)); if (g.name == "stderr" && g.bytes.size() == 8) memcpy(&errAddr, g.bytes.data(), 8); }
  int e = M->findFunc(entry);
  if (e < 0 || !M->funcs[e].defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  std::vector<Val> none; enter(*s0, e, none, -1, nullptr);
  std::vector<ObjRef> glob0 = s0->glob;
  if (params.count("warm")) s0->warm = (int)params["warm"];
  work.push_back(s0);
  bool timeout = false;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back();
    try {
      while (!s->done) {
        try { step(*s); } catch (Again&) {
          s->warm--; s->fr.clear(); s->regs.clear(); s->stack.clear(); s->occ.clear(); s->frozen.clear(); s->exitMode = 0; s->insts = 0;
          for (size_t i = 0; i < M->globals.size(); i++) if (M->globals[i].harness && !M->globals[i].constant) s->glob[i] = glob0[i];
          std::vector<Val> no; enter(*s, e, no, -1, nullptr);
        }
        if ((s->insts & 0xfff) == 0 && elapsed() > maxTime) { timeout = true; break; }
        if (s->insts > maxInstPath) { report(*s, "hang", "no end after " + std::to_string(maxInstPath) + " instructions", nullptr); break; }
      }
    } catch (PathEnd&) {}
    if (!timeout) { nPaths++; if (samples.size() < 6 || (nPaths % 997 == 0 && samples.size() < 12)) { std::string t; for (auto& kv : named) { bool used = true; if (!used) continue; Var& v = gVars[kv.second]; if (v.w > 64) continue; i128 x = sextw(evalE(v.e, *s->model), v.w); t += kv.first + "=" + std::to_string((long long)x) + " "; if (t.size() > 160) break; } samples.push_back({"path", t}); } }
    delete s;
    if (timeout || nPaths >= maxPaths || viols.size() >= maxViol) break;
  }
  size_t left = work.size() + (timeout ? 1 : 0);
  FILE* o = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
  fprintf(o, "{\n \"entry\": %s,\n \"params\": {", jstr(entry).c_str()); { bool f1 = true; for (auto& p : params) { fprintf(o, "%s%s: %lld", f1 ? "" : ", ", jstr(p.first).c_str(), p.second); f1 = false; } }
  fprintf(o, "},\n \"paths\": %llu, \"instructions\": %llu, \"forks\": %llu, \"exits\": %llu, \"assume_killed\": %llu, \"unexplored\": %zu, \"timeout\": %s,\n", (unsigned long long)nPaths, (unsigned long long)nInsts, (unsigned long long)nForks, (unsigned long long)nExits, (unsigned long long)nAssumeKill, left, timeout ? "true" : "false");
  fprintf(o, " \"asserts\": %llu, \"asserts_by_solver\": %llu, \"asserts_unknown\": %llu, \"incomplete\": %llu,\n", (unsigned long long)nAsserts, (unsigned long long)nAssertsSolver, (unsigned long long)nAssertUnk, (unsigned long long)nIncomplete);
  fprintf(o, " \"queries\": %llu, \"z3_calls\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"z3_seconds\": %.3f, \"z3_max\": %.3f, \"wall\": %.3f, \"sym_vars\": %zu,\n", (unsigned long long)gSS.queries, (unsigned long long)gSS.z3, (unsigned long long)gSS.sat, (unsigned long long)gSS.unsat, (unsigned long long)gSS.unk, (unsigned long long)gSS.cacheHits, (unsigned long long)gSS.modelHits, gSS.z3time, gSS.maxq, elapsed(), gVars.size());
  fprintf(o, " \"incomplete_why\": {"); { bool f1 = true; for (auto& p : incompleteWhy) { fprintf(o, "%s%s: %d", f1 ? "" : ", ", jstr(p.first).c_str(), p.second); f1 = false; } }
  fprintf(o, "},\n \"reached\": {"); { bool f1 = true; for (auto& p : reached) { fprintf(o, "%s%s: %llu", f1 ? "" : ", ", jstr(p.first).c_str(), (unsigned long long)p.second); f1 = false; } }
  fprintf(o, "},\n \"functions\": {"); { bool f1 = true; for (size_t i = 0; i < M->funcs.size(); i++) { auto& f = M->funcs[i]; if (!f.repo || !f.calls) continue; size_t h = 0; for (char c : hit[i]) h += c; fprintf(o, "%s%s: [%llu, %zu, %zu]", f1 ? "" : ", ", jstr(f.name).c_str(), (unsigned long long)f.calls, h, hit[i].size()); f1 = false; } }
  fprintf(o, "},\n \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? ", " : "", jstr(samples[i].second).c_str());
  fprintf(o, "],\n \"violations\": ["); for (size_t i = 0; i < viols.size(); i++) fprintf(o, "%s{\"kind\": %s, \"msg\": %s, \"where\": %s, \"cex\": \"cex_%d.txt\"}", i ? ", " : "", jstr(viols[i].kind).c_str(), jstr(viols[i].msg).c_str(), jstr(viols[i].where).c_str(), viols[i].idx);
  fprintf(o, "]\n}\n");
  if (o != stdout) fclose(o);
  if (getenv("SYMOSL_PROFILE")) { std::vector<std::pair<u64, std::string>> v; for (auto& f : M->funcs) if (f.insts) v.push_back({f.insts, f.name}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%12llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  fflush(nullptr); _Exit(0);
}
