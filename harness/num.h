// Values of osl_int_t at any precision as 128-bit integers.
#pragma once
#include "sym.h"
typedef __int128 I128;
void sym_mpz_set128(mpz_ptr z, const void *p16);
void sym_mpz_get128(mpz_srcptr z, void *p16);
#define M63 ((I128)1 << 63)
static inline int fits64(I128 v) { return v >= -M63 && v < M63; }
static inline osl_int_t mk(int prec, I128 v) {
  osl_int_t x; osl_int_init(prec, &x);
  if (prec == SP) x.sp = (long)v; else if (prec == DP) x.dp = (long long)v; else sym_mpz_set128(*x.mp, &v);
  return x;
}
static inline I128 val(int prec, osl_int_t x) {
  if (prec == SP) return x.sp; if (prec == DP) return x.dp;
  I128 v; sym_mpz_get128(*x.mp, &v); return v;
}
// the exit expected when the exact result r does not fit the precision
static inline int fits(int prec, I128 r) { return prec == MP || fits64(r); }
static const int precs[3] = {SP, DP, MP};
