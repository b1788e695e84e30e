#include "expr.h"
#include <condition_variable>
#include <mutex>
#include <thread>
#include <chrono>
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <set>
#include <unordered_set>
#include <cstdio>
#include <cstdlib>

std::vector<Var> gVars;
SolverStats gSS;
int gSolverTimeoutMs = 10000;

static uint32_t gNextId = 1;
static u64 gStamp = 1;

// ---------------------------------------------------------------- var sets
struct VSHash { size_t operator()(const VarSet& v) const { size_t h = 1469598103934665603ull; for (auto x : v) h = (h ^ x) * 1099511628211ull; return h; } };
static std::unordered_set<VarSet, VSHash> gVarSets;
static const VarSet* internVS(VarSet&& v) { return &*gVarSets.insert(std::move(v)).first; }
static const VarSet* emptyVS() { static const VarSet* e = internVS(VarSet()); return e; }
struct PPHash { size_t operator()(const std::pair<const void*, const void*>& p) const { return (size_t)p.first * 31 + (size_t)p.second * 1000003; } };
static std::unordered_map<std::pair<const void*, const void*>, const VarSet*, PPHash> gVSU;
static const VarSet* unionVS(const VarSet* a, const VarSet* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto it = gVSU.find({a, b});
  if (it != gVSU.end()) return it->second;
  VarSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  auto p = internVS(std::move(r));
  gVSU[{a, b}] = p;
  return p;
}

// ---------------------------------------------------------------- hash consing
struct Key { Op op; uint8_t w; EP a, b, c; u128 k; bool operator==(const Key& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; } };
struct KeyHash { size_t operator()(const Key& x) const {
  size_t h = x.op * 131 + x.w; auto mix = [&](u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); mix((u64)x.k); mix((u64)(x.k >> 64)); return h; } };
static std::unordered_map<Key, EP, KeyHash> gTab;

static i64 sminw(int w) { return w >= 64 ? INT64_MIN : -((i64)1 << (w - 1)); }
static i64 smaxw(int w) { return w >= 64 ? INT64_MAX : (((i64)1 << (w - 1)) - 1); }
static u64 umaxw(int w) { return w >= 64 ? UINT64_MAX : (((u64)1 << w) - 1); }

static void fromSigned(EP e) {   // derive the unsigned range from the signed one and back
  int w = e->w;
  if (e->slo >= 0) { e->ulo = std::max(e->ulo, (u64)e->slo); e->uhi = std::min(e->uhi, (u64)e->shi); }
  else if (e->shi < 0) { e->ulo = std::max(e->ulo, (u64)e->slo & umaxw(w)); e->uhi = std::min(e->uhi, (u64)e->shi & umaxw(w)); }
  if (e->uhi <= (u64)smaxw(w)) { e->slo = std::max(e->slo, (i64)e->ulo); e->shi = std::min(e->shi, (i64)e->uhi); }
  else if (e->ulo > (u64)smaxw(w)) {
    i64 l = (i64)sextw(e->ulo, w), h = (i64)sextw(e->uhi, w); e->slo = std::max(e->slo, l); e->shi = std::min(e->shi, h); }
}
static const i128 WMAX = (i128)(((u128)1 << 127) - 1), WMIN = -WMAX - 1;
static void rangesW(EP e) {
  e->wlo = e->w >= 128 ? WMIN : -((i128)1 << (e->w - 1)); e->whi = e->w >= 128 ? WMAX : ((i128)1 << (e->w - 1)) - 1;
  i128 l, h;
  auto set = [&]() { if (l > e->wlo) e->wlo = l; if (h < e->whi) e->whi = h; };
  switch (e->op) {
    case K_CONST: e->wlo = e->whi = sextw(e->k, e->w); break;
    case K_SEXT: l = e->a->wlo; h = e->a->whi; set(); break;
    case K_ZEXT: if (e->a->w <= 64) { l = (i128)e->a->ulo; h = (i128)e->a->uhi; set(); } break;
    case K_ITE: l = std::min(e->b->wlo, e->c->wlo); h = std::max(e->b->whi, e->c->whi); set(); break;
    case K_ADD: if (!__builtin_add_overflow(e->a->wlo, e->b->wlo, &l) && !__builtin_add_overflow(e->a->whi, e->b->whi, &h)) if (l >= e->wlo && h <= e->whi) set(); break;
    case K_SUB: if (!__builtin_sub_overflow(e->a->wlo, e->b->whi, &l) && !__builtin_sub_overflow(e->a->whi, e->b->wlo, &h)) if (l >= e->wlo && h <= e->whi) set(); break;
    case K_MUL: { i128 c[4]; if (__builtin_mul_overflow(e->a->wlo, e->b->wlo, &c[0]) || __builtin_mul_overflow(e->a->wlo, e->b->whi, &c[1]) || __builtin_mul_overflow(e->a->whi, e->b->wlo, &c[2]) || __builtin_mul_overflow(e->a->whi, e->b->whi, &c[3])) break; l = h = c[0]; for (auto x : c) { l = std::min(l, x); h = std::max(h, x); } if (l >= e->wlo && h <= e->whi) set(); break; }
    default: break;
  }
}
static void ranges(EP e) {
  int w = e->w;
  e->ulo = 0; e->uhi = w <= 64 ? umaxw(w) : UINT64_MAX; e->slo = w <= 64 ? sminw(w) : INT64_MIN; e->shi = w <= 64 ? smaxw(w) : INT64_MAX;
  if (w > 64) { rangesW(e); return; }
  switch (e->op) {
    case K_CONST: e->ulo = e->uhi = (u64)e->k; e->slo = e->shi = (i64)sextw(e->k, w); e->wlo = e->whi = e->slo; return;
    case K_ZEXT: e->ulo = e->a->ulo; e->uhi = e->a->uhi; break;
    case K_SEXT: e->slo = e->a->slo; e->shi = e->a->shi; break;
    case K_ADD: case K_SUB: {
      i128 l, h; 
      if (e->op == K_ADD) { l = (i128)e->a->slo + e->b->slo; h = (i128)e->a->shi + e->b->shi; }
      else { l = (i128)e->a->slo - e->b->shi; h = (i128)e->a->shi - e->b->slo; }
      if (l >= sminw(w) && h <= smaxw(w)) { e->slo = (i64)l; e->shi = (i64)h; }
      if (e->op == K_ADD) { u128 ul = (u128)e->a->ulo + e->b->ulo, uh = (u128)e->a->uhi + e->b->uhi; if (uh <= umaxw(w)) { e->ulo = (u64)ul; e->uhi = (u64)uh; } }
      else if (e->a->ulo >= e->b->uhi) { e->ulo = e->a->ulo - e->b->uhi; e->uhi = e->a->uhi - e->b->ulo; }
      break; }
    case K_MUL: {
      i128 c[4] = {(i128)e->a->slo * e->b->slo, (i128)e->a->slo * e->b->shi, (i128)e->a->shi * e->b->slo, (i128)e->a->shi * e->b->shi};
      i128 l = c[0], h = c[0]; for (auto x : c) { l = std::min(l, x); h = std::max(h, x); }
      if (l >= sminw(w) && h <= smaxw(w)) { e->slo = (i64)l; e->shi = (i64)h; }
      break; }
    case K_AND: e->uhi = std::min(e->a->uhi, e->b->uhi); break;
    case K_OR: { u64 m = e->a->uhi | e->b->uhi; u64 f = m; f |= f >> 1; f |= f >> 2; f |= f >> 4; f |= f >> 8; f |= f >> 16; f |= f >> 32; e->uhi = std::min(e->uhi, f); e->ulo = std::max(e->a->ulo, e->b->ulo); break; }
    case K_UREM: e->uhi = e->a->uhi; if (e->b->ulo > 0) e->uhi = std::min(e->uhi, e->b->uhi - 1); break;
    case K_SREM: {
      e->slo = std::min<i64>(e->a->slo, 0); e->shi = std::max<i64>(e->a->shi, 0);
      if ((e->b->slo > 0 || e->b->shi < 0) && e->b->slo != INT64_MIN) { i64 m = std::max(e->b->slo < 0 ? -e->b->slo : e->b->slo, e->b->shi < 0 ? -e->b->shi : e->b->shi) - 1; e->slo = std::max(e->slo, -m); e->shi = std::min(e->shi, m); }
      break; }
    case K_SDIV: {
      if (e->a->slo == sminw(w)) break;
      i64 m = std::max<i64>(1, std::max(e->a->slo < 0 ? -e->a->slo : e->a->slo, e->a->shi < 0 ? -e->a->shi : e->a->shi));
      e->slo = -m; e->shi = m; if (e->a->slo >= 0 && e->b->slo > 0) e->slo = 0;
      break; }
    case K_UDIV: if (isC(e->b) && e->b->k) { e->ulo = e->a->ulo / (u64)e->b->k; e->uhi = e->a->uhi / (u64)e->b->k; } break;
    case K_LSHR: if (isC(e->b) && e->b->k < 64) { e->ulo = e->a->ulo >> (int)e->b->k; e->uhi = e->a->uhi >> (int)e->b->k; } break;
    case K_EXTRACT: if (e->k == 0 && e->a->w <= 64) {
        if (e->a->uhi <= umaxw(w)) { e->ulo = e->a->ulo; e->uhi = e->a->uhi; }
        if (e->a->slo >= sminw(w) && e->a->shi <= smaxw(w)) { e->slo = e->a->slo; e->shi = e->a->shi; } }
      break;
    case K_ITE: e->ulo = std::min(e->b->ulo, e->c->ulo); e->uhi = std::max(e->b->uhi, e->c->uhi); e->slo = std::min(e->b->slo, e->c->slo); e->shi = std::max(e->b->shi, e->c->shi); break;
    default: break;
  }
  fromSigned(e); e->wlo = e->slo; e->whi = e->shi;
}
static EP mk(Op op, int w, EP a, EP b = nullptr, EP c = nullptr, u128 k = 0) {
  Key key{op, (uint8_t)w, a, b, c, k};
  auto it = gTab.find(key);
  if (it != gTab.end()) return it->second;
  EP e = new Expr();
  e->op = op; e->w = (uint8_t)w; e->a = a; e->b = b; e->c = c; e->k = k; e->id = gNextId++; e->z3 = nullptr; e->stamp = 0;
  e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
  const VarSet* v = emptyVS();
  if (op == K_VAR) v = internVS(VarSet{(uint32_t)k});
  if (a) v = unionVS(v, a->vars);
  if (b) v = unionVS(v, b->vars);
  if (c) v = unionVS(v, c->vars);
  e->vars = v;
  ranges(e);
  gTab[key] = e;
  if (op != K_CONST && w <= 64 && e->ulo == e->uhi && op != K_VAR) { EP r = eConst(e->ulo, w); if (!e->undef) { gTab[key] = r; return r; } }
  return e;
}
EP eConst(u128 v, int w) { return mk(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
EP eVar(uint32_t id) { return gVars[id].e; }
uint32_t newVar(const std::string& name, int w) {
  uint32_t id = gVars.size();
  gVars.push_back(Var{name, (uint8_t)w, nullptr, true, false, false, nullptr, nullptr, 0, false});
  gVars[id].e = mk(K_VAR, w, nullptr, nullptr, nullptr, id);
  return id;
}
uint32_t newVarU(const std::string& name, int w, u64 lo, u64 hi) {
  uint32_t id = newVar(name, w); EP e = gVars[id].e; e->ulo = lo; e->uhi = hi; fromSigned(e); e->wlo = e->slo; e->whi = e->shi; gVars[id].ranged = true; return id;
}
uint32_t newVarS(const std::string& name, int w, i64 lo, i64 hi) {
  uint32_t id = newVar(name, w); EP e = gVars[id].e; e->slo = lo; e->shi = hi; fromSigned(e); e->wlo = e->slo; e->whi = e->shi; gVars[id].ranged = true; return id;
}
EP decimalValue(EP x, bool neg, int n, int w) {
  EP s = eConst(0, w);
  for (int i = n - 1; i >= 0; i--) {
    EP d = digitVar(x, neg, n, i);
    s = eBin(K_ADD, eBin(K_MUL, s, eConst(10, w)), eBin(K_SUB, eZext(d, w), eConst('0', w)));
  }
  return s;
}
static std::map<std::tuple<EP, bool, int, int>, EP> gDigits;
std::unordered_map<EP, DigitInfo> gDigitInfo;
EP digitVar(EP x, bool neg, int n, int pos) {
  auto key = std::make_tuple(x, neg, n, pos);
  auto it = gDigits.find(key);
  if (it != gDigits.end()) return it->second;
  int w = x->w;
  if (n == 1) {   // one digit: the character is an expression of x itself
    EP low = eExtract(x, 0, 8);
    EP ch = neg ? eBin(K_SUB, eConst('0', 8), low) : eBin(K_ADD, low, eConst('0', 8));
    if (isC(ch)) return ch;
    // give the character its own range through a variable when the expression has none
    if (ch->ulo >= '0' && ch->uhi <= '9') { gDigits[key] = ch; gDigitInfo[ch] = {x, neg, n, 0}; return ch; }
  }
  int cw = n <= 4 ? 16 : n <= 9 ? 32 : n <= 18 ? 64 : w;
  if (cw > w) cw = w;
  for (int i = 0; i < n; i++) {
    char nm[64]; snprintf(nm, sizeof nm, "digit!%u!%d!%d!%d", x->id, neg, n, i);
    uint32_t id = newVarU(nm, 8, (i == n - 1 && n > 1) ? '1' : '0', '9');
    gVars[id].input = false; gVars[id].dx = x; gVars[id].dpos = i; gVars[id].dneg = neg;
    gDigits[std::make_tuple(x, neg, n, i)] = gVars[id].e;
    gDigitInfo[gVars[id].e] = {x, neg, n, i};
  }
  EP sum = decimalValue(x, neg, n, cw);
  EP xx = eExtract(x, 0, cw);
  EP def = eBin(K_EQ, neg ? eBin(K_SUB, eConst(0, cw), xx) : xx, sum);
  for (int i = 0; i < n; i++) gVars[(uint32_t)gDigits[std::make_tuple(x, neg, n, i)]->k].def = def;
  return gDigits[key];
}

EP eNot(EP a) {
  if (isC(a)) return eConst(~a->k, a->w);
  if (a->op == K_NOT) return a->a;
  if (a->w == 1) {
    if (a->op == K_ULT) return eBin(K_ULE, a->b, a->a);
    if (a->op == K_ULE) return eBin(K_ULT, a->b, a->a);
    if (a->op == K_SLT) return eBin(K_SLE, a->b, a->a);
    if (a->op == K_SLE) return eBin(K_SLT, a->b, a->a);
  }
  return mk(K_NOT, a->w, a);
}
static u128 foldBin(Op op, int w, u128 a, u128 b) {
  i128 sa = sextw(a, w), sb = sextw(b, w);
  switch (op) {
    case K_ADD: return a + b; case K_SUB: return a - b; case K_MUL: return a * b;
    case K_UDIV: return b ? a / b : maskw(w); case K_UREM: return b ? a % b : a;
    case K_SDIV: if (!b) return sa < 0 ? 1 : maskw(w); if (sb == -1) return (u128)0 - a; return (u128)(sa / sb);
    case K_SREM: if (!b) return a; if (sb == -1) return 0; return (u128)(sa % sb);
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= (u128)w ? 0 : a << (int)b; case K_LSHR: return b >= (u128)w ? 0 : (a & maskw(w)) >> (int)b;
    case K_ASHR: return (u128)(b >= (u128)w ? (sa < 0 ? -1 : 0) : sa >> (int)b);
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b; case K_SLT: return sa < sb; case K_SLE: return sa <= sb;
    case K_CONCAT: return 0;
    default: abort();
  }
}
// a wide value that certainly fits 64 bits, as a 64-bit expression (or null)
static EP narrow64(EP e) {
  if (e->w <= 64 || e->wlo < INT64_MIN || e->whi > INT64_MAX) return nullptr;
  if (e->op == K_CONST) return eConst(e->k, 64);
  if (e->op == K_SEXT && e->a->w <= 64) return eSext(e->a, 64);
  if (e->op == K_ZEXT && e->a->w <= 64) return eZext(e->a, 64);
  return nullptr;
}
EP eBin(Op op, EP a, EP b) {
  int w = a->w;
  bool cmp = op >= K_EQ && op <= K_SLE;
  int rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return eConst(foldBin(op, w, a->k, b->k), rw);
  // commutative: constant on the right
  if ((op == K_ADD || op == K_MUL || op == K_AND || op == K_OR || op == K_XOR || op == K_EQ) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (w > 64) {
    if (op == K_SLT) { if (a->whi < b->wlo) return eTrue(); if (a->wlo >= b->whi) return eFalse(); }
    if (op == K_SLE) { if (a->whi <= b->wlo) return eTrue(); if (a->wlo > b->whi) return eFalse(); }
    if (op == K_EQ && (a->whi < b->wlo || b->whi < a->wlo)) return eFalse();
    if (op == K_SLT || op == K_SLE || op == K_EQ || op == K_ADD || op == K_SUB || op == K_MUL) {
      EP x = narrow64(a), y = x ? narrow64(b) : nullptr;
      if (x && y) {
        if (cmp) return eBin(op, x, y);
        i128 l, h;
        if (op == K_ADD) { l = a->wlo + b->wlo; h = a->whi + b->whi; } else if (op == K_SUB) { l = a->wlo - b->whi; h = a->whi - b->wlo; }
        else { i128 c[4] = {a->wlo * b->wlo, a->wlo * b->whi, a->whi * b->wlo, a->whi * b->whi}; l = h = c[0]; for (auto t : c) { l = std::min(l, t); h = std::max(h, t); } }
        if (l >= INT64_MIN && h <= INT64_MAX) return eSext(eBin(op, x, y), w);
      }
    }
  }
  switch (op) {
    case K_ADD:
      if (isC(b) && b->k == 0) return a;
      if (isC(b) && a->op == K_ADD && isC(a->b)) return eBin(K_ADD, a->a, eConst(a->b->k + b->k, w));
      if (a->op == K_SUB && a->b == b) return a->a;
      if (b->op == K_SUB && b->b == a) return b->a;
      if (w == 1) return eBin(K_XOR, a, b);
      break;
    case K_SUB:
      if (a == b) return eConst(0, w);
      if (isC(b)) return eBin(K_ADD, a, eConst((u128)0 - b->k, w));
      if (a->op == K_ADD && a->a == b) return a->b;
      if (a->op == K_ADD && a->b == b) return a->a;
      if (isC(a) && a->k == 0 && b->op == K_SUB && isC(b->a) && b->a->k == 0) return b->b;
      break;
    case K_MUL:
      if (isC(b)) { if (b->k == 0) return b; if (b->k == 1) return a;
        if (a->op == K_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eBin(op, a->b, b), eBin(op, a->c, b)); }
      break;
    case K_UDIV: case K_SDIV:
      if (isC(b) && b->k == 1 && w > 1) return a;
      if (a->op == op && isC(b) && isC(a->b) && w <= 64) {   // (x / c) / d = x / (c * d) for positive c, d
        u128 c = a->b->k, d = b->k, lim = (u128)smaxw(w);
        if (c > 0 && d > 0 && c <= lim && d <= lim) { if (c * d <= lim) return eBin(op, a->a, eConst(c * d, w)); if (op == K_SDIV && c * d > lim + 1) return eConst(0, w); }
      }
      break;
    case K_UREM: case K_SREM: if (isC(b) && b->k == 1) return eConst(0, w); break;
    case K_AND:
      if (a == b) return a;
      if (isC(b)) { if (b->k == 0) return b; if (b->k == maskw(w)) return a;
        if (w <= 64 && a->uhi <= (u64)b->k && ((b->k & (b->k + 1)) == 0)) return a; }
      if (a->op == K_NOT && a->a == b) return eConst(0, w);
      if (b->op == K_NOT && b->a == a) return eConst(0, w);
      break;
    case K_OR:
      if (a == b) return a;
      if (isC(b)) { if (b->k == 0) return a; if (b->k == maskw(w)) return b; }
      if (a->op == K_NOT && a->a == b) return eConst(maskw(w), w);
      if (b->op == K_NOT && b->a == a) return eConst(maskw(w), w);
      break;
    case K_XOR:
      if (a == b) return eConst(0, w);
      if (isC(b)) { if (b->k == 0) return a; if (b->k == maskw(w)) return eNot(a); }
      break;
    case K_SHL: case K_LSHR: case K_ASHR: if (isC(b) && b->k == 0) return a; break;
    case K_EQ:
      if (a == b) return eTrue();
      if (w == 1 && isC(b)) return b->k ? a : eNot(a);
      if (w <= 64 && (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo)) return eFalse();
      if (isC(b)) {
        if (a->op == K_ZEXT) return (b->k >> a->a->w) ? eFalse() : eBin(K_EQ, a->a, eConst(b->k, a->a->w));
        if (a->op == K_SEXT) { EP n = eConst(b->k, a->a->w); return (u128)sextw(n->k, n->w) == (u128)sextw(b->k, w) ? eBin(K_EQ, a->a, n) : eFalse(); }
        if (a->op == K_ITE && (isC(a->b) || isC(a->c))) return eIte(a->a, eBin(K_EQ, a->b, b), eBin(K_EQ, a->c, b));
        if (a->op == K_ADD && isC(a->b)) return eBin(K_EQ, a->a, eConst(b->k - a->b->k, w));
        if (a->op == K_SUB && b->k == 0) return eBin(K_EQ, a->a, a->b);
        if (a->op == K_SUB && isC(a->a)) return eBin(K_EQ, a->b, eConst(a->a->k - b->k, w));
        if (a->op == K_NOT) return eBin(K_EQ, a->a, eConst(~b->k, w));
        if (a->op == K_SDIV && b->k == 0 && isC(a->b) && w <= 64 && sextw(a->b->k, w) > 0) return eBin(K_AND, eBin(K_SLT, a->a, a->b), eBin(K_SLT, eConst((u128)0 - a->b->k, w), a->a));
        if (a->op == K_UDIV && b->k == 0 && isC(a->b) && a->b->k) return eBin(K_ULT, a->a, a->b);
        if (a->op == K_CONCAT) { int lw = a->b->w; return eBin(K_AND, eBin(K_EQ, a->a, eConst(b->k >> lw, a->a->w)), eBin(K_EQ, a->b, eConst(b->k, lw))); }
      }
      if (a->op == K_ZEXT && b->op == K_ZEXT && a->a->w == b->a->w) return eBin(K_EQ, a->a, b->a);
      if (a->op == K_SEXT && b->op == K_SEXT && a->a->w == b->a->w) return eBin(K_EQ, a->a, b->a);
      if (a->op == K_ADD && a->a == b && isC(a->b)) return a->b->k ? eFalse() : eTrue();
      if (b->op == K_ADD && b->a == a && isC(b->b)) return b->b->k ? eFalse() : eTrue();
      break;
    case K_ULT:
      if (a == b) return eFalse();
      if (w <= 64) { if (a->uhi < b->ulo) return eTrue(); if (a->ulo >= b->uhi) return eFalse(); }
      if (a->op == K_ZEXT && b->op == K_ZEXT && a->a->w == b->a->w) return eBin(op, a->a, b->a);
      if (a->op == K_ZEXT && isC(b) && !(b->k >> a->a->w)) return eBin(op, a->a, eConst(b->k, a->a->w));
      if (b->op == K_ZEXT && isC(a) && !(a->k >> b->a->w)) return eBin(op, eConst(a->k, b->a->w), b->a);
      break;
    case K_ULE:
      if (a == b) return eTrue();
      if (w <= 64) { if (a->uhi <= b->ulo) return eTrue(); if (a->ulo > b->uhi) return eFalse(); }
      if (a->op == K_ZEXT && b->op == K_ZEXT && a->a->w == b->a->w) return eBin(op, a->a, b->a);
      if (a->op == K_ZEXT && isC(b) && !(b->k >> a->a->w)) return eBin(op, a->a, eConst(b->k, a->a->w));
      if (b->op == K_ZEXT && isC(a) && !(a->k >> b->a->w)) return eBin(op, eConst(a->k, b->a->w), b->a);
      break;
    case K_SLT:
      if (a == b) return eFalse();
      if (w <= 64) { if (a->shi < b->slo) return eTrue(); if (a->slo >= b->shi) return eFalse(); if (a->slo >= 0 && b->slo >= 0) return eBin(K_ULT, a, b); }
      if (a->op == K_SEXT && b->op == K_SEXT && a->a->w == b->a->w) return eBin(op, a->a, b->a);
      if (a->op == K_SEXT && isC(b)) { EP n = eConst(b->k, a->a->w); if ((u128)sextw(n->k, n->w) == (u128)sextw(b->k, w)) return eBin(op, a->a, n); }
      if (b->op == K_SEXT && isC(a)) { EP n = eConst(a->k, b->a->w); if ((u128)sextw(n->k, n->w) == (u128)sextw(a->k, w)) return eBin(op, n, b->a); }
      break;
    case K_SLE:
      if (a == b) return eTrue();
      if (w <= 64) { if (a->shi <= b->slo) return eTrue(); if (a->slo > b->shi) return eFalse(); if (a->slo >= 0 && b->slo >= 0) return eBin(K_ULE, a, b); }
      if (a->op == K_SEXT && b->op == K_SEXT && a->a->w == b->a->w) return eBin(op, a->a, b->a);
      if (a->op == K_SEXT && isC(b)) { EP n = eConst(b->k, a->a->w); if ((u128)sextw(n->k, n->w) == (u128)sextw(b->k, w)) return eBin(op, a->a, n); }
      if (b->op == K_SEXT && isC(a)) { EP n = eConst(a->k, b->a->w); if ((u128)sextw(n->k, n->w) == (u128)sextw(a->k, w)) return eBin(op, n, b->a); }
      break;
    default: break;
  }
  // push comparisons / arithmetic with a constant into an ite of constants
  if (isC(b) && a->op == K_ITE && isC(a->b) && isC(a->c) && op != K_CONCAT) return eIte(a->a, eBin(op, a->b, b), eBin(op, a->c, b));
  if (cmp && isC(a) && b->op == K_ITE && isC(b->b) && isC(b->c)) return eIte(b->a, eBin(op, a, b->b), eBin(op, a, b->c));
  // signed comparisons of 0 with an ite tree (strcmp results) distribute
  if (cmp && isC(b) && a->op == K_ITE && (isC(a->b) || isC(a->c))) return eIte(a->a, eBin(op, a->b, b), eBin(op, a->c, b));
  if (cmp && isC(a) && b->op == K_ITE && (isC(b->b) || isC(b->c))) return eIte(b->a, eBin(op, a, b->b), eBin(op, a, b->c));
  return mk(op, rw, a, b);
}
EP eZext(EP a, int w) {
  if (w == a->w) return a;
  if (isC(a)) return eConst(a->k, w);
  if (a->op == K_ZEXT) return eZext(a->a, w);
  if (a->op == K_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eConst(a->b->k, w), eConst(a->c->k, w));
  return mk(K_ZEXT, w, a);
}
EP eSext(EP a, int w) {
  if (w == a->w) return a;
  if (isC(a)) return eConst((u128)sextw(a->k, a->w), w);
  if (a->op == K_SEXT) return eSext(a->a, w);
  if (a->op == K_ZEXT) return eZext(a->a, w);
  if (a->w <= 64 && a->slo >= 0 && a->w > 1) return eZext(a, w);
  if (a->op == K_ITE && isC(a->b) && isC(a->c)) return eIte(a->a, eSext(a->b, w), eSext(a->c, w));
  return mk(K_SEXT, w, a);
}
EP eExtract(EP a, int off, int w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return eConst(a->k >> off, w);
  if (a->op == K_EXTRACT) return eExtract(a->a, off + (int)a->k, w);
  if (a->op == K_ZEXT || a->op == K_SEXT) {
    int iw = a->a->w;
    if (off + w <= iw) return eExtract(a->a, off, w);
    if (a->op == K_ZEXT && off >= iw) return eConst(0, w);
    if (off == 0 && w > iw) return a->op == K_ZEXT ? eZext(a->a, w) : eSext(a->a, w);
  }
  if (a->op == K_CONCAT) {
    int lw = a->b->w;
    if (off + w <= lw) return eExtract(a->b, off, w);
    if (off >= lw) return eExtract(a->a, off - lw, w);
  }
  if (a->op == K_ITE && ((isC(a->b) && isC(a->c)) )) return eIte(a->a, eExtract(a->b, off, w), eExtract(a->c, off, w));
  if (off == 0 && (a->op == K_ADD || a->op == K_SUB || a->op == K_MUL) && a->w <= 64 && w == 32 &&
      (a->a->op == K_SEXT || a->a->op == K_ZEXT || isC(a->a)) && (a->b->op == K_SEXT || a->b->op == K_ZEXT || isC(a->b)))
    return eBin(a->op, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
  if (off == 0 && a->w > 64 && w <= 64 && (a->op == K_ADD || a->op == K_SUB || a->op == K_MUL)) return eBin(a->op, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
  return mk(K_EXTRACT, w, a, nullptr, nullptr, (u128)off);
}
EP eConcat(EP hi, EP lo) {
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return eConst((hi->k << lo->w) | lo->k, w);
  if (isC(hi) && hi->k == 0) return eZext(lo, w);
  if (hi->op == K_EXTRACT && lo->op == K_EXTRACT && hi->a == lo->a && hi->k == lo->k + lo->w) return eExtract(hi->a, (int)lo->k, w);
  if (hi->op == K_EXTRACT && hi->k == (u128)lo->w && eExtract(hi->a, 0, lo->w) == lo) return eExtract(hi->a, 0, w);
  return mk(K_CONCAT, w, hi, lo);
}
EP eIte(EP c, EP a, EP b) {
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (c->op == K_NOT) return eIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->k ? c : eNot(c);
    if (isC(a)) return a->k ? eBin(K_OR, c, b) : eBin(K_AND, eNot(c), b);
    if (isC(b)) return b->k ? eBin(K_OR, eNot(c), a) : eBin(K_AND, c, a);
  }
  if (a->op == K_ITE && a->a == c) return eIte(c, a->b, b);
  if (b->op == K_ITE && b->a == c) return eIte(c, a, b->c);
  return mk(K_ITE, a->w, c, a, b);
}

// ---------------------------------------------------------------- evaluation

static u128 varValue(uint32_t id, const Model& m);
static u128 ev(EP e, const Model& m) {
  if (e->op == K_CONST) return e->k;
  if (e->stamp == gStamp) return e->val;
  u128 r = 0; int w = e->w;
  switch (e->op) {
    case K_VAR: r = varValue((uint32_t)e->k, m); break;
    case K_NOT: r = ~ev(e->a, m); break;
    case K_ZEXT: r = ev(e->a, m); break;
    case K_SEXT: r = (u128)sextw(ev(e->a, m), e->a->w); break;
    case K_EXTRACT: r = ev(e->a, m) >> (int)e->k; break;
    case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    default: r = foldBin(e->op, e->a->w, ev(e->a, m), ev(e->b, m));
  }
  r &= maskw(w);
  e->stamp = gStamp; e->val = r;
  return r;
}
static u128 varValue(uint32_t id, const Model& m) {
  auto it = m.v.find(id);
  if (it != m.v.end()) return it->second;
  Var& v = gVars[id];
  if (v.dx) {
    i128 x = sextw(ev(v.dx, m), v.dx->w); u128 ax = x < 0 ? (u128)-x : (u128)x;
    for (int i = 0; i < v.dpos; i++) ax /= 10;
    return '0' + (unsigned)(ax % 10);
  }
  if (v.w > 64) return 0;
  if (v.e->slo <= 0 && v.e->shi >= 0 && v.e->ulo == 0) return 0;
  if (v.e->slo > 0 || v.e->shi < 0) return (u128)(u64)v.e->slo & maskw(v.w);
  return v.e->ulo;
}
u128 evalE(EP e, const Model& m) { gStamp++; return ev(e, m); }

// ---------------------------------------------------------------- Z3
static Z3_context gC;
static Z3_solver gS;
static int gCurTimeout = -1;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void z3init() {
  if (gC) return;
  Z3_config cfg = Z3_mk_config();
  gC = Z3_mk_context(cfg);
  Z3_set_error_handler(gC, z3err);
}
static void newSolver() {
  if (gS) Z3_solver_dec_ref(gC, gS);
  static Z3_symbol logic = Z3_mk_string_symbol(gC, "QF_BV");
  gS = Z3_mk_solver_for_logic(gC, logic);
  Z3_solver_inc_ref(gC, gS);
  Z3_params p = Z3_mk_params(gC); Z3_params_inc_ref(gC, p);
  Z3_params_set_uint(gC, p, Z3_mk_string_symbol(gC, "timeout"), gSolverTimeoutMs);
  Z3_solver_set_params(gC, gS, p);
  Z3_params_dec_ref(gC, p);
}
static Z3_ast bvnum(u128 k, int w) {
  Z3_sort so = Z3_mk_bv_sort(gC, w);
  if (w <= 64) return Z3_mk_unsigned_int64(gC, (u64)k, so);
  Z3_ast lo = Z3_mk_unsigned_int64(gC, (u64)k, Z3_mk_bv_sort(gC, 64));
  Z3_ast hi = Z3_mk_unsigned_int64(gC, (u64)(k >> 64) & (u64)maskw(w - 64), Z3_mk_bv_sort(gC, w - 64));
  return Z3_mk_concat(gC, hi, lo);
}
static Z3_ast tz(EP e) {   // w == 1 -> Bool, otherwise BV
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr; int w = e->w;
  auto A = [&]() { return tz(e->a); }; auto B = [&]() { return tz(e->b); };
  bool b1 = e->a && e->a->w == 1;
  if ((e->op == K_MUL || e->op == K_UDIV || e->op == K_SDIV || e->op == K_UREM || e->op == K_SREM) && w > 8 && w <= 64) {
    // operands within a small signed range: same operation on fewer bits
    auto need = [](i64 lo, i64 hi) { int n = 1; while (n < 64 && (lo < -((i128)1 << (n - 1)) || hi >= ((i128)1 << (n - 1)))) n++; return n; };
    int na = need(e->a->slo, e->a->shi), nb = need(e->b->slo, e->b->shi);
    bool uns = e->op == K_UDIV || e->op == K_UREM;
    if (!uns || (e->a->slo >= 0 && e->b->slo >= 0)) {
      int n = e->op == K_MUL ? na + nb : std::max(na, nb) + 1;
      if (n < 4) n = 4;
      if (n < w - 3) {
        Z3_ast x = Z3_mk_extract(gC, n - 1, 0, A()), y = Z3_mk_extract(gC, n - 1, 0, B()), q;
        switch (e->op) { case K_MUL: q = Z3_mk_bvmul(gC, x, y); break; case K_UDIV: q = Z3_mk_bvudiv(gC, x, y); break; case K_SDIV: q = Z3_mk_bvsdiv(gC, x, y); break; case K_UREM: q = Z3_mk_bvurem(gC, x, y); break; default: q = Z3_mk_bvsrem(gC, x, y); }
        r = Z3_mk_sign_ext(gC, w - n, q); e->z3 = r; return r;
      }
    }
  }
  switch (e->op) {
    case K_CONST: r = w == 1 ? (e->k ? Z3_mk_true(gC) : Z3_mk_false(gC)) : bvnum(e->k, w); break;
    case K_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->k); r = Z3_mk_const(gC, Z3_mk_string_symbol(gC, nm), w == 1 ? Z3_mk_bool_sort(gC) : Z3_mk_bv_sort(gC, w)); break; }
    case K_ADD: r = Z3_mk_bvadd(gC, A(), B()); break;
    case K_SUB: r = b1 ? Z3_mk_xor(gC, A(), B()) : Z3_mk_bvsub(gC, A(), B()); break;
    case K_MUL: { if (b1) { Z3_ast x[2] = {A(), B()}; r = Z3_mk_and(gC, 2, x); } else r = Z3_mk_bvmul(gC, A(), B()); break; }
    case K_UDIV: r = Z3_mk_bvudiv(gC, A(), B()); break;
    case K_SDIV: r = Z3_mk_bvsdiv(gC, A(), B()); break;
    case K_UREM: r = Z3_mk_bvurem(gC, A(), B()); break;
    case K_SREM: r = Z3_mk_bvsrem(gC, A(), B()); break;
    case K_AND: { if (b1) { Z3_ast x[2] = {A(), B()}; r = Z3_mk_and(gC, 2, x); } else r = Z3_mk_bvand(gC, A(), B()); break; }
    case K_OR: { if (b1) { Z3_ast x[2] = {A(), B()}; r = Z3_mk_or(gC, 2, x); } else r = Z3_mk_bvor(gC, A(), B()); break; }
    case K_XOR: r = b1 ? Z3_mk_xor(gC, A(), B()) : Z3_mk_bvxor(gC, A(), B()); break;
    case K_SHL: r = Z3_mk_bvshl(gC, A(), B()); break;
    case K_LSHR: r = Z3_mk_bvlshr(gC, A(), B()); break;
    case K_ASHR: r = Z3_mk_bvashr(gC, A(), B()); break;
    case K_ZEXT: r = b1 ? Z3_mk_ite(gC, A(), bvnum(1, w), bvnum(0, w)) : Z3_mk_zero_ext(gC, w - e->a->w, A()); break;
    case K_SEXT: r = b1 ? Z3_mk_ite(gC, A(), bvnum(maskw(w), w), bvnum(0, w)) : Z3_mk_sign_ext(gC, w - e->a->w, A()); break;
    case K_EXTRACT: { r = Z3_mk_extract(gC, (unsigned)e->k + w - 1, (unsigned)e->k, A()); if (w == 1) r = Z3_mk_eq(gC, r, bvnum(1, 1)); break; }
    case K_CONCAT: { Z3_ast x = A(), y = B(); if (e->a->w == 1) x = Z3_mk_ite(gC, x, bvnum(1, 1), bvnum(0, 1)); if (e->b->w == 1) y = Z3_mk_ite(gC, y, bvnum(1, 1), bvnum(0, 1)); r = Z3_mk_concat(gC, x, y); break; }
    case K_EQ: r = b1 ? Z3_mk_iff(gC, A(), B()) : Z3_mk_eq(gC, A(), B()); break;
    case K_ULT: if (b1) { Z3_ast x[2] = {Z3_mk_not(gC, A()), B()}; r = Z3_mk_and(gC, 2, x); } else r = Z3_mk_bvult(gC, A(), B()); break;
    case K_ULE: r = b1 ? Z3_mk_implies(gC, A(), B()) : Z3_mk_bvule(gC, A(), B()); break;
    case K_SLT: if (b1) { Z3_ast x[2] = {A(), Z3_mk_not(gC, B())}; r = Z3_mk_and(gC, 2, x); } else r = Z3_mk_bvslt(gC, A(), B()); break;
    case K_SLE: r = b1 ? Z3_mk_implies(gC, B(), A()) : Z3_mk_bvsle(gC, A(), B()); break;
    case K_ITE: r = Z3_mk_ite(gC, A(), B(), tz(e->c)); break;
    case K_NOT: r = w == 1 ? Z3_mk_not(gC, A()) : Z3_mk_bvnot(gC, A()); break;
  }
  e->z3 = r;
  return r;
}
// Z3 sometimes overruns its own limit inside preprocessing: a watchdog interrupts it.
static std::mutex gWm; static std::condition_variable gWc; static bool gWbusy; static std::chrono::steady_clock::time_point gWend;
static void watchdog() {
  std::unique_lock<std::mutex> l(gWm);
  for (;;) {
    if (!gWbusy) { gWc.wait(l); continue; }
    if (gWc.wait_until(l, gWend) == std::cv_status::timeout && gWbusy && std::chrono::steady_clock::now() >= gWend) { Z3_solver_interrupt(gC, gS); gWend = std::chrono::steady_clock::now() + std::chrono::milliseconds(200); }
  }
}
static Z3_lbool guardedCheck() {
  static bool started = false;
  if (!started) { started = true; std::thread(watchdog).detach(); }
  { std::lock_guard<std::mutex> l(gWm); gWbusy = true; gWend = std::chrono::steady_clock::now() + std::chrono::milliseconds(gSolverTimeoutMs + 500); }
  gWc.notify_one();
  Z3_lbool r = Z3_solver_check(gC, gS);
  { std::lock_guard<std::mutex> l(gWm); gWbusy = false; }
  gWc.notify_one();
  return r;
}
static Res z3check(const std::vector<EP>& fs, ModelP* out) {
  z3init();
  static int uses = 0;
  if (!gS || ++uses > 2000 || gCurTimeout != gSolverTimeoutMs) { newSolver(); uses = 0; gCurTimeout = gSolverTimeoutMs; }
  else Z3_solver_reset(gC, gS);
  std::set<uint32_t> vs;
  std::vector<EP> work = fs; std::unordered_set<EP> seen;
  for (size_t i = 0; i < work.size(); i++) {
    EP f = work[i];
    if (!seen.insert(f).second) continue;
    Z3_solver_assert(gC, gS, tz(f));
    for (auto v : *f->vars) if (vs.insert(v).second) { if (gVars[v].def) work.push_back(gVars[v].def); }
  }
  for (auto v : vs) {
    Var& x = gVars[v];
    if (!x.ranged) continue;
    int w = x.w;
    Z3_ast e = tz(x.e);
    if (w > 64 || w == 1) continue;
    if (x.e->slo != sminw(w)) Z3_solver_assert(gC, gS, Z3_mk_bvsge(gC, e, bvnum((u128)(i128)x.e->slo & maskw(w), w)));
    if (x.e->shi != smaxw(w)) Z3_solver_assert(gC, gS, Z3_mk_bvsle(gC, e, bvnum((u128)(i128)x.e->shi & maskw(w), w)));
    if (x.e->ulo != 0) Z3_solver_assert(gC, gS, Z3_mk_bvuge(gC, e, bvnum(x.e->ulo, w)));
    if (x.e->uhi != umaxw(w)) Z3_solver_assert(gC, gS, Z3_mk_bvule(gC, e, bvnum(x.e->uhi, w)));
  }
  auto t0 = std::chrono::steady_clock::now();
  if (const char* d = getenv("SYM_DUMPQ")) { FILE* f = fopen(d, "w"); fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(gC, gS)); fclose(f); }
  Z3_lbool r = guardedCheck();
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gSS.z3++; gSS.z3time += dt; gSS.maxq = std::max(gSS.maxq, dt);
  if (getenv("SYM_SLOWQ") && dt > atof(getenv("SYM_SLOWQ"))) { fprintf(stderr, "slow query %.2fs r=%d\n", dt, (int)r); for (auto f : fs) fprintf(stderr, "   %s\n", show(f, 8).c_str()); }
  if (r == Z3_L_FALSE) { gSS.unsat++; return R_UNSAT; }
  if (r == Z3_L_UNDEF) { gSS.unk++; newSolver(); return R_UNK; }
  gSS.sat++;
  if (out) {
    Z3_model m = Z3_solver_get_model(gC, gS); Z3_model_inc_ref(gC, m);
    auto md = std::make_shared<Model>();
    for (auto v : vs) {
      Var& x = gVars[v];
      Z3_ast val;
      if (x.w == 1) { Z3_model_eval(gC, m, tz(x.e), true, &val); md->v[v] = Z3_get_bool_value(gC, val) == Z3_L_TRUE; continue; }
      if (x.w <= 64) { Z3_model_eval(gC, m, tz(x.e), true, &val); u64 u = 0; Z3_get_numeral_uint64(gC, val, &u); md->v[v] = u; continue; }
      u64 lo = 0, hi = 0;
      Z3_model_eval(gC, m, Z3_mk_extract(gC, 63, 0, tz(x.e)), true, &val); Z3_get_numeral_uint64(gC, val, &lo);
      Z3_model_eval(gC, m, Z3_mk_extract(gC, x.w - 1, 64, tz(x.e)), true, &val); Z3_get_numeral_uint64(gC, val, &hi);
      md->v[v] = ((u128)hi << 64) | lo;
    }
    Z3_model_dec_ref(gC, m);
    *out = md;
  }
  return R_SAT;
}

// ---- non-linear terms: first replaced by fresh variables (unsatisfiable then means unsatisfiable),
// then a few boundary assignments are evaluated before the bit-level query
static std::unordered_map<EP, EP> gAbs;
static bool isHard(EP e) { return (e->op == K_MUL || e->op == K_UDIV || e->op == K_SDIV || e->op == K_UREM || e->op == K_SREM) && e->w > 16 && !isC(e->a) && !isC(e->b); }
static std::unordered_map<EP, std::vector<EP>> gLemma;   // facts about an abstracted remainder, stated on abstracted operands
static EP abstracted(EP e);
static void addLemmas(EP e, EP v, EP a, EP b) {
  int w = e->w; EP z = eConst(0, w); auto& L = gLemma[v];
  auto imp = [&](EP c, EP d) { L.push_back(eBin(K_OR, eNot(c), d)); };
  if (e->op == K_SREM) {
    EP bp = eBin(K_SLT, z, b), bn = eBin(K_SLT, b, z), nb = eBin(K_SUB, z, b);
    imp(bp, eBin(K_AND, eBin(K_SLT, v, b), eBin(K_SLT, nb, v)));
    imp(bn, eBin(K_SLT, b, v));
    imp(eBin(K_AND, bn, eNot(eBin(K_EQ, b, eConst((u128)1 << (w - 1), w)))), eBin(K_SLT, v, nb));
    imp(eBin(K_SLE, z, a), eBin(K_SLE, z, v)); imp(eBin(K_SLE, a, z), eBin(K_SLE, v, z));
  } else if (e->op == K_UREM) { imp(eNot(eBin(K_EQ, b, z)), eBin(K_ULT, v, b)); L.push_back(eBin(K_ULE, v, a)); }
  else if (e->op == K_UDIV) imp(eNot(eBin(K_EQ, b, z)), eBin(K_ULE, v, a));
  else if (e->op == K_SDIV) {
    EP r = abstracted(eBin(K_SREM, e->a, e->b)), nz = eNot(eBin(K_EQ, b, z)), bp = eBin(K_SLT, z, b), bn = eBin(K_SLT, b, z), ap = eBin(K_SLE, z, a), an = eBin(K_SLE, a, z);
    EP mn = eConst((u128)1 << (w - 1), w), nov = eNot(eBin(K_EQ, a, mn));
    imp(nz, eBin(K_EQ, eBin(K_EQ, v, z), eBin(K_EQ, r, a)));
    imp(eBin(K_OR, eBin(K_AND, ap, bp), eBin(K_AND, eBin(K_AND, an, bn), nov)), eBin(K_SLE, z, v));
    imp(eBin(K_OR, eBin(K_AND, ap, bn), eBin(K_AND, an, bp)), eBin(K_SLE, v, z));
  }
}
static EP abstracted(EP e) {
  if (e->op == K_CONST || e->op == K_VAR) return e;
  auto it = gAbs.find(e); if (it != gAbs.end()) return it->second;
  EP r;
  if (isHard(e)) {
    uint32_t id = newVar("abs", e->w); EP v = gVars[id].e;
    if (e->w <= 64) { v->ulo = e->ulo; v->uhi = e->uhi; v->slo = e->slo; v->shi = e->shi; }
    v->wlo = e->wlo; v->whi = e->whi; gVars[id].ranged = true; gVars[id].input = false; r = v;
    EP aa = abstracted(e->a), bb = abstracted(e->b); addLemmas(e, v, aa, bb);
  } else {
    EP a = e->a ? abstracted(e->a) : nullptr, b = e->b ? abstracted(e->b) : nullptr, c = e->c ? abstracted(e->c) : nullptr;
    if (a == e->a && b == e->b && c == e->c) r = e;
    else switch (e->op) {
      case K_NOT: r = eNot(a); break; case K_ZEXT: r = eZext(a, e->w); break; case K_SEXT: r = eSext(a, e->w); break;
      case K_EXTRACT: r = eExtract(a, (int)e->k, e->w); break; case K_CONCAT: r = eConcat(a, b); break; case K_ITE: r = eIte(a, b, c); break;
      default: r = eBin(e->op, a, b);
    }
  }
  gAbs[e] = r; return r;
}
static Res hardCheck(const std::vector<EP>& slice, ModelP* sm) {
  std::vector<EP> ab; bool any = false;
  for (EP f : slice) { EP g = abstracted(f); any |= g != f; ab.push_back(g); }
  if (!any) return z3check(slice, sm);
  for (EP g : ab) if (isC(g) && !g->k) return R_UNSAT;
  { std::set<uint32_t> sv; for (size_t i = 0; i < ab.size(); i++) for (auto v : *ab[i]->vars) if (sv.insert(v).second) { auto it = gLemma.find(gVars[v].e); if (it != gLemma.end()) for (EP l : it->second) if (!isC(l)) ab.push_back(l); } }
  if (z3check(ab, nullptr) == R_UNSAT) return R_UNSAT;
  std::set<uint32_t> vs; std::vector<EP> all = slice;
  for (size_t i = 0; i < all.size(); i++) for (auto v : *all[i]->vars) if (vs.insert(v).second && gVars[v].def) all.push_back(gVars[v].def);
  static u64 seed = 88172645463325252ull; auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  if (vs.size() <= 12) for (int t = 0; t < 1500; t++) {
    auto m = std::make_shared<Model>();
    for (auto v : vs) {
      Var& x = gVars[v]; if (x.dx) continue;
      u128 val; u64 r = rnd(); int sh = (int)(rnd() % 64);
      switch (r % 8) { case 0: val = (r >> 8) % 5 - (u128)2; break; case 1: val = (u128)1 << (x.w - 1); break; case 2: val = ((u128)1 << (x.w - 1)) - 1; break; case 3: val = ((u128)1 << sh) + ((r >> 9) % 3) - 1; break; case 4: val = -(((u128)1 << sh) + ((r >> 9) % 3) - 1); break; case 5: val = rnd() >> sh; break; case 6: val = -(u128)(rnd() >> sh); break;
        default: val = x.w <= 64 ? ((r >> 10) & 1 ? (u128)(u64)x.e->slo : (u128)(u64)x.e->shi) : (u128)rnd(); }
      val &= maskw(x.w);
      if (x.w <= 64) { i64 sv = (i64)sextw(val, x.w); if (sv < x.e->slo || sv > x.e->shi) { u128 span = (u128)((i128)x.e->shi - (i128)x.e->slo) + 1; val = (u128)((i128)x.e->slo + (i128)(span ? (u128)rnd() % span : 0)) & maskw(x.w); } if ((u64)val < x.e->ulo || (u64)val > x.e->uhi) { val = x.e->ulo; } }
      m->v[v] = val;
    }
    gStamp++; bool ok = true;
    for (EP f : all) if (!ev(f, *m)) { ok = false; break; }
    if (ok) { gSS.modelHits++; *sm = m; return R_SAT; }
  }
  return z3check(slice, sm);
}
struct QKeyHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 14695981039346656037ull; for (auto x : v) h = (h ^ x) * 1099511628211ull; return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<Res, ModelP>, QKeyHash> gCache;
static std::vector<ModelP> gRecent; static size_t gRecentPos = 0;

static bool inter(const VarSet& big, const std::vector<char>& in) { for (auto v : big) if (v < in.size() && in[v]) return true; return false; }

Res checkSat(const std::vector<EP>& cons, EP extra, const ModelP& base, ModelP* out) {
  gSS.queries++;
  if (isC(extra)) { if (out) *out = base; return extra->k ? R_SAT : R_UNSAT; }
  // slice
  static std::vector<char> in; in.assign(gVars.size(), 0);
  std::vector<EP> defs;
  auto addVars = [&](EP f) {
    std::vector<EP> st{f};
    while (!st.empty()) { EP g = st.back(); st.pop_back();
      for (auto v : *g->vars) { if (v >= in.size()) in.resize(v + 1, 0); if (!in[v]) { in[v] = 1; if (gVars[v].def) st.push_back(gVars[v].def); } } }
  };
  addVars(extra);
  std::vector<EP> slice; slice.push_back(extra);
  std::vector<char> used(cons.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!used[i] && inter(*cons[i]->vars, in)) { used[i] = 1; slice.push_back(cons[i]); addVars(cons[i]); ch = true; }
  }
  std::vector<uint32_t> key; for (auto f : slice) key.push_back(f->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  ModelP sm; Res r;
  auto it = gCache.find(key);
  if (it != gCache.end()) { gSS.cacheHits++; r = it->second.first; sm = it->second.second; }
  else {
    bool hit = false;
    for (auto& m : gRecent) {
      gStamp++; bool ok = true;
      for (auto f : slice) if (!ev(f, *m)) { ok = false; break; }
      // ranges of variables hold in every model we keep, except for defaults, which respect them too
      if (ok) { for (size_t v = 0; v < in.size() && ok; v++) if (in[v] && gVars[v].def && !ev(gVars[v].def, *m)) ok = false; }
      if (ok) { hit = true; sm = m; break; }
    }
    if (hit) { gSS.modelHits++; r = R_SAT; }
    else {
      r = hardCheck(slice, &sm);
      if (r == R_SAT) { if (gRecent.size() < 24) gRecent.push_back(sm); else gRecent[gRecentPos++ % 24] = sm; }
    }
    if (gCache.size() > 400000) gCache.clear();
    gCache[key] = {r, sm};
  }
  if (r == R_SAT && out) {
    auto m = std::make_shared<Model>(*base);
    for (size_t v = 0; v < in.size(); v++) if (in[v]) { auto f = sm->v.find(v); if (f != sm->v.end()) m->v[v] = f->second; else { m->v.erase(v); } }
    *out = m;
  }
  return r;
}
Res checkFull(const std::vector<EP>& cons, ModelP* out) { gSS.queries++; return z3check(cons, out); }

std::string show(EP e, int d) {
  static const char* n[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "zext", "sext", "extract", "concat", "==", "<u", "<=u", "<s", "<=s", "ite", "!"};
  char buf[64];
  if (e->op == K_CONST) { snprintf(buf, sizeof buf, "%lld:%d", (long long)sextw(e->k, e->w), e->w); return buf; }
  if (e->op == K_VAR) return gVars[(uint32_t)e->k].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == K_EXTRACT) { snprintf(buf, sizeof buf, "[%d+%d]", (int)e->k, e->w); s += buf; }
  for (EP x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1);
  return s + ")";
}
