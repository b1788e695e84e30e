// Model of GMP integers over 128-bit values; results outside (-2^126, 2^126) end the path as not explored.
#include "sym_prim.h"
#include <string.h>
typedef __int128 I; typedef struct { int alloc, size; void *d; } Z; typedef Z *P;
void *malloc(size_t); void free(void *);
#define LIM (((I)1 << 126) + 1)
static long dummy[2];
static I get(const Z *z) { if (z->alloc == 0) return 0; return *(I *)z->d; }
static void put(P z, I v) {
  if (v >= LIM || v <= -LIM) __sym_incomplete("multiple precision value beyond 126 bits");
  if (z->alloc == 0) { z->d = malloc(16); z->alloc = 2; }
  *(I *)z->d = v; z->size = (int)(v > 0) - (int)(v < 0);
}
#define S63 ((I)1 << 63)
#define F64(x) ((x) >= -S63 && (x) < S63)
void __gmpz_init(P z) { z->alloc = 0; z->size = 0; z->d = dummy; }
void __gmpz_init2(P z, unsigned long n) { __gmpz_init(z); }
void __gmpz_clear(P z) { if (z->alloc) free(z->d); }
void __gmpz_set(P r, const Z *a) { put(r, get(a)); }
void __gmpz_set_si(P r, long v) { put(r, v); }
void __gmpz_set_ui(P r, unsigned long v) { put(r, v); }
void __gmpz_init_set(P r, const Z *a) { __gmpz_init(r); put(r, get(a)); }
void __gmpz_init_set_si(P r, long v) { __gmpz_init(r); put(r, v); }
void __gmpz_init_set_ui(P r, unsigned long v) { __gmpz_init(r); put(r, v); }
void __gmpz_swap(P a, P b) { Z t = *a; *a = *b; *b = t; }
long __gmpz_get_si(const Z *a) { I v = get(a); if (F64(v)) return (long)v; if (v == S63) return (long)((unsigned long)1 << 63); unsigned long m = (unsigned long)(v < 0 ? -v : v) & 0x7fffffffffffffffUL; return v < 0 ? -1 - (long)((m - 1) & 0x7fffffffffffffffUL) : (long)m; }
unsigned long __gmpz_get_ui(const Z *a) { I v = get(a); return (unsigned long)(v < 0 ? -v : v); }
int __gmpz_cmp(const Z *a, const Z *b) { I x = get(a), y = get(b); return (int)(x > y) - (int)(x < y); }
int __gmpz_cmp_si(const Z *a, long b) { I x = get(a), y = b; return (int)(x > y) - (int)(x < y); }
int __gmpz_cmp_ui(const Z *a, unsigned long b) { I x = get(a), y = b; return (int)(x > y) - (int)(x < y); }
int __gmpz_cmpabs(const Z *a, const Z *b) { I x = get(a), y = get(b); if (x < 0) x = -x; if (y < 0) y = -y; return (int)(x > y) - (int)(x < y); }
int __gmpz_cmpabs_ui(const Z *a, unsigned long b) { I x = get(a), y = b; if (x < 0) x = -x; return (int)(x > y) - (int)(x < y); }
int __gmpz_fits_sint_p(const Z *a) { I x = get(a); return x >= -(I)2147483648LL && x <= 2147483647; }
int __gmpz_fits_slong_p(const Z *a) { I x = get(a); return F64(x); }
int __gmpz_fits_uint_p(const Z *a) { I x = get(a); return x >= 0 && x <= 4294967295LL; }
int __gmpz_fits_ulong_p(const Z *a) { I x = get(a); return x >= 0 && x < 2 * S63; }
int __gmpz_fits_sshort_p(const Z *a) { I x = get(a); return x >= -32768 && x <= 32767; }
void __gmpz_add(P r, const Z *a, const Z *b) { put(r, get(a) + get(b)); }
void __gmpz_add_ui(P r, const Z *a, unsigned long b) { put(r, get(a) + b); }
void __gmpz_sub(P r, const Z *a, const Z *b) { put(r, get(a) - get(b)); }
void __gmpz_sub_ui(P r, const Z *a, unsigned long b) { put(r, get(a) - b); }
void __gmpz_ui_sub(P r, unsigned long a, const Z *b) { put(r, (I)a - get(b)); }
static I mulI(I x, I y) {
#define SM ((I)1 << 50)
  if ((F64(x) && y > -SM && y < SM) || (F64(y) && x > -SM && x < SM)) return x * y;
  if (x > -SM * 128 && x < SM * 128 && F64(y)) return x * y;
  if (!F64(x) && !F64(y)) __sym_incomplete("product of two integers beyond 64 bits");
  if (F64(x) && F64(y)) { I p = x * y; return p; }
  // one of them is beyond 64 bits: the other has to be small for the product to stay below 2^126
  I big = F64(x) ? y : x, sm = F64(x) ? x : y;
  if (sm > -32 && sm < 32) return big * sm;
  __sym_incomplete("product beyond 126 bits"); return 0;
}
void __gmpz_mul(P r, const Z *a, const Z *b) { put(r, mulI(get(a), get(b))); }
void __gmpz_mul_si(P r, const Z *a, long b) { put(r, mulI(get(a), b)); }
void __gmpz_mul_ui(P r, const Z *a, unsigned long b) { put(r, mulI(get(a), (I)b)); }
void __gmpz_addmul(P r, const Z *a, const Z *b) { put(r, get(r) + mulI(get(a), get(b))); }
void __gmpz_submul(P r, const Z *a, const Z *b) { put(r, get(r) - mulI(get(a), get(b))); }
void __gmpz_addmul_ui(P r, const Z *a, unsigned long b) { put(r, get(r) + mulI(get(a), (I)b)); }
void __gmpz_submul_ui(P r, const Z *a, unsigned long b) { put(r, get(r) - mulI(get(a), (I)b)); }
void __gmpz_mul_2exp(P r, const Z *a, unsigned long n) { if (n > 60) __sym_incomplete("shift"); put(r, mulI(get(a), (I)1 << n)); }
void __gmpz_neg(P r, const Z *a) { put(r, -get(a)); }
void __gmpz_abs(P r, const Z *a) { I v = get(a); put(r, v < 0 ? -v : v); }
// truncated quotient and remainder; 64-bit division whenever both operands fit
static void tdiv(I a, I b, I *q, I *r) {
  if (b == 0) { int z = 0; z = 1 / z; }
  if (F64(a) && F64(b) && !(b == -1)) { long x = (long)a, y = (long)b; *q = x / y; *r = x % y; }
  else if (b == -1) { *q = -a; *r = 0; }
  else { *q = a / b; *r = a % b; }
}
static void fdiv(I a, I b, I *q, I *r) { tdiv(a, b, q, r); if (*r != 0 && ((*r < 0) != (b < 0))) { *q -= 1; *r += b; } }
static void cdiv(I a, I b, I *q, I *r) { tdiv(a, b, q, r); if (*r != 0 && ((*r < 0) == (b < 0))) { *q += 1; *r -= b; } }
#define DIVS(k) \
void __gmpz_##k##div_q(P o, const Z *a, const Z *b) { I q, r; k##div(get(a), get(b), &q, &r); put(o, q); } \
void __gmpz_##k##div_r(P o, const Z *a, const Z *b) { I q, r; k##div(get(a), get(b), &q, &r); put(o, r); } \
void __gmpz_##k##div_qr(P o, P p, const Z *a, const Z *b) { I q, r; k##div(get(a), get(b), &q, &r); put(o, q); put(p, r); } \
unsigned long __gmpz_##k##div_q_ui(P o, const Z *a, unsigned long b) { I q, r; k##div(get(a), (I)b, &q, &r); put(o, q); return (unsigned long)(r < 0 ? -r : r); } \
unsigned long __gmpz_##k##div_r_ui(P o, const Z *a, unsigned long b) { I q, r; k##div(get(a), (I)b, &q, &r); put(o, r); return (unsigned long)(r < 0 ? -r : r); } \
unsigned long __gmpz_##k##div_ui(const Z *a, unsigned long b) { I q, r; k##div(get(a), (I)b, &q, &r); return (unsigned long)(r < 0 ? -r : r); }
DIVS(t) DIVS(f) DIVS(c)
void __gmpz_divexact(P o, const Z *a, const Z *b) { I q, r; tdiv(get(a), get(b), &q, &r); if (r != 0) __sym_incomplete("mpz_divexact with a remainder has no defined result"); put(o, q); }
void __gmpz_divexact_ui(P o, const Z *a, unsigned long b) { I q, r; tdiv(get(a), (I)b, &q, &r); if (r != 0) __sym_incomplete("mpz_divexact with a remainder has no defined result"); put(o, q); }
void __gmpz_mod(P o, const Z *a, const Z *b) { I q, r, d = get(b); tdiv(get(a), d, &q, &r); if (r < 0) r += d < 0 ? -d : d; put(o, r); }
int __gmpz_divisible_p(const Z *a, const Z *b) { I q, r, x = get(a), d = get(b); if (d == 0) return x == 0; tdiv(x, d, &q, &r); return r == 0; }
int __gmpz_divisible_ui_p(const Z *a, unsigned long b) { I q, r, x = get(a), d = (I)b; if (d == 0) return x == 0; tdiv(x, d, &q, &r); return r == 0; }
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b != 0) { I q, r; tdiv(a, b, &q, &r); a = b; b = r; } return a; }
void __gmpz_gcd(P o, const Z *a, const Z *b) { put(o, gcdI(get(a), get(b))); }
unsigned long __gmpz_gcd_ui(P o, const Z *a, unsigned long b) { I g = gcdI(get(a), (I)b); if (o) put(o, g); return (unsigned long)g; }
void __gmpz_lcm(P o, const Z *a, const Z *b) { I x = get(a), y = get(b); if (x == 0 || y == 0) { put(o, 0); return; } I g = gcdI(x, y), q, r; tdiv(x, g, &q, &r); I v = mulI(q, y); put(o, v < 0 ? -v : v); }
int __gmpz_sgn(const Z *a) { return a->size; }
size_t __gmpz_sizeinbase(const Z *a, int base) {
  I v = get(a); if (v < 0) v = -v;
  if (v == 0) return 1;
  if (base == 2) { size_t n = 0; while (v != 0) { v = (I)((unsigned __int128)v >> 1); n++; } return n; }
  if (base == 10) return __sym_dec128_len(&v);
  __sym_incomplete("mpz_sizeinbase base"); return 0;
}
size_t __gmpz_size(const Z *a) { I v = get(a); if (v == 0) return 0; return F64(v) ? 1 : 2; }
char *__gmpz_get_str(char *d, int base, const Z *a) {
  if (base != 10) __sym_incomplete("mpz_get_str base");
  I v = get(a); if (!d) d = malloc(__sym_dec128_len(&v) + 1);
  __sym_dec128(&v, d); return d;
}
int __gmpz_set_str(P o, const char *s, int base) { I v; long n; if (base != 10 && base != 0) __sym_incomplete("mpz_set_str base"); int r = __sym_scan128(s, &v, &n); if (r != 1) return -1; while (s[n] == ' ' || s[n] == '\n' || s[n] == '\t') n++; if (s[n]) return -1; put(o, v); return 0; }
int __gmpz_init_set_str(P o, const char *s, int base) { __gmpz_init(o); return __gmpz_set_str(o, s, base); }
int __gmp_sscanf(const char *s, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (strcmp(fmt, "%Zd") && strcmp(fmt, "%lZd") && strcmp(fmt, "%Zi")) {
    if (strcmp(fmt, "%Zd%n") && strcmp(fmt, "%lZd%n")) __sym_incomplete("gmp_sscanf format");
    P z = va_arg(ap, P); int *np = va_arg(ap, int *); va_end(ap); I v; long n; int r = __sym_scan128(s, &v, &n); if (r == 1) { put(z, v); *np = (int)n; } return r;
  }
  P z = va_arg(ap, P); va_end(ap);
  I v; long n; int r = __sym_scan128(s, &v, &n); if (r == 1) put(z, v); return r;
}
static char *gfmt(const char *fmt, va_list ap) { if (strcmp(fmt, "%Zd")) __sym_incomplete("gmp_printf format"); P z = va_arg(ap, P); I v = get(z); char *d = __sym_alloc(__sym_dec128_len(&v) + 1); __sym_dec128(&v, d); return d; }
int __gmp_sprintf(char *o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char *d = gfmt(fmt, ap); va_end(ap); size_t n = strlen(d); memcpy(o, d, n + 1); __sym_free(d); return (int)n; }
int __gmp_snprintf(char *o, size_t cap, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char *d = gfmt(fmt, ap); va_end(ap); size_t n = strlen(d); if (cap > n) memcpy(o, d, n + 1); else if (cap) { memcpy(o, d, cap - 1); o[cap - 1] = 0; } __sym_free(d); return (int)n; }
int fputs(const char *, void *);
int __gmp_fprintf(void *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char *d = gfmt(fmt, ap); va_end(ap); fputs(d, f); __sym_free(d); return 1; }
void __gmp_get_memory_functions(void *(**a)(size_t), void *(**b)(void *, size_t, size_t), void (**c)(void *, size_t)) { if (a) *a = malloc; if (b) *b = 0; if (c) *c = (void (*)(void *, size_t))free; }
void sym_mpz_set128(P z, const void *p16) { put(z, *(const I *)p16); }
void sym_mpz_get128(const Z *z, void *p16) { *(I *)p16 = get(z); }
