// Native runtime of the harness interface: inputs come from a counterexample file.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <setjmp.h>
extern char __start_hbss[] __attribute__((weak)), __stop_hbss[] __attribute__((weak)), __start_hdata[] __attribute__((weak)), __stop_hdata[] __attribute__((weak));
__attribute__((no_sanitize("address"), noinline)) static void put_back(char *to, const char *from, size_t n) { for (volatile size_t i = 0; i < n; i++) to[i] = from ? from[i] : 0; }
static int warm; static jmp_buf again;
typedef struct { char *name; __int128 v; int used; } In;
static In *in; static int nin;
static int exitMode, finished; static const char *fails;
int __lsan_is_turned_off(void) { return 1; }
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
static int inChange;
static void die(const char *k, const char *m) { if (getenv("SYM_ONLYCHANGED") && !inChange) { fprintf(stderr, "REPLAY-OK other\n"); _exit(0); } if (getenv("SYM_ONLYMEM") && (!strcmp(k, "assert") || !strcmp(k, "exit"))) { fprintf(stderr, "REPLAY-OK other\n"); _exit(0); } fprintf(stderr, "\nREPLAY-VIOLATION %s: %s\n", k, m); fflush(stderr); _exit(70); }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (exitMode == 0) die("exit", "the library stopped the program on a valid request"); if (warm) longjmp(again, 1); fprintf(stderr, "REPLAY-OK exit\n"); _exit(0); }
void __wrap_abort(void) { die("abort", "abort called"); _exit(70); }

// ---- heap bookkeeping (malloc and friends of the code under test are wrapped at link time)
typedef struct { void *p; size_t n; void *copy; int live; } B;
static B *bs; static size_t nb, cb; static long live; 
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t), __real_free(void *); char *__real_strdup(const char *), *__real_strndup(const char *, size_t);
static void note(void *p, size_t n) { if (!p) return; if (nb == cb) { cb = cb * 2 + 1024; bs = __real_realloc(bs, cb * sizeof *bs); } bs[nb].p = p; bs[nb].n = n; bs[nb].copy = 0; bs[nb].live = 1; nb++; live++; }
static void gone(void *p) { if (!p) return; for (size_t i = nb; i-- > 0;) if (bs[i].live && bs[i].p == p) { bs[i].live = 0; live--; return; } }
static void *fill(void *p, size_t n) { if (p && n && !getenv("SYM_NOFILL")) memset(p, 0xA5, n); return p; }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); fill(p, n); note(p, n); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); note(p, n * m); return p; }
void *__wrap_realloc(void *o, size_t n) { if (o) { int k = 0; for (size_t i = nb; i-- > 0 && !k;) if (bs[i].live && bs[i].p == o) { bs[i].live = 0; live--; k = 1; } } void *p = __real_realloc(o, n); if (n || p) note(p, n); return p; }
void __wrap_free(void *p) { gone(p); __real_free(p); }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); note(p, strlen(p) + 1); return p; }
char *__wrap_strndup(const char *s, size_t n) { char *p = __real_strndup(s, n); note(p, strlen(p) + 1); return p; }
void __gmp_set_memory_functions(void *(*)(size_t), void *(*)(void *, size_t, size_t), void (*)(void *, size_t));
static void *gal(size_t n) { return __wrap_malloc(n); }
static void *gre(void *p, size_t o, size_t n) { return __wrap_realloc(p, n); }
static void gfr(void *p, size_t n) { __wrap_free(p); }
long sym_heap_live(void) { return live; }
void sym_leak_check(long base) { if (live != base) die("leak", "memory is still allocated after everything was released"); }
long sym_common(const char *a, const char *b) { return 0; }
void sym_thaw(void) { for (size_t i = 0; i < nb; i++) if (bs[i].copy) { __real_free(bs[i].copy); bs[i].copy = 0; } }
void sym_freeze(void) { sym_thaw(); for (size_t i = 0; i < nb; i++) if (bs[i].live) { bs[i].copy = __real_malloc(bs[i].n + 1); memcpy(bs[i].copy, bs[i].p, bs[i].n); } }
void sym_unchanged(const char *m) { inChange = 1; for (size_t i = 0; i < nb; i++) if (bs[i].copy) { if (!bs[i].live) die("assert", m); if (memcmp(bs[i].copy, bs[i].p, bs[i].n)) die("assert", m); } inChange = 0; }

static struct { char name[96]; int n; } occ[512]; static int nocc;
static int next(const char *n) { for (int i = 0; i < nocc; i++) if (!strcmp(occ[i].name, n)) return occ[i].n++; snprintf(occ[nocc].name, 96, "%s", n); occ[nocc].n = 1; nocc++; return 0; }
static int look(const char *n, int k, long lo, long hi, __int128 *v) {
  char a[128], b[192]; snprintf(a, sizeof a, "%s#%d", n, k); snprintf(b, sizeof b, "%s@%ld:%ld", a, lo, hi);
  for (int i = 0; i < nin; i++) if (!strcmp(in[i].name, b)) { *v = in[i].v; return 1; }
  for (int i = 0; i < nin; i++) if (!strcmp(in[i].name, a)) { *v = in[i].v; return 1; }
  return 0;
}
static long warmIn(const char *n, long lo, long hi) {
  unsigned long h = 1469598103934665603ul; for (const char *c = n; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ul;
  h = (h ^ (unsigned long)((long)next(n) * 16 + warm)) * 1099511628211ul; h >>= 20;
  if (lo >= hi) return lo;
  if ((unsigned long)hi - (unsigned long)lo < 16) return lo + (long)(h % ((unsigned long)hi - (unsigned long)lo + 1));
  long x = (long)(h % 8) - 2; if (x < lo) x = lo + (long)(h % 8); if (x > hi) x = hi - (long)(h % 8);
  return x;
}
static long rng(const char *n, long lo, long hi) { if (warm) return warmIn(n, lo, hi); __int128 v; if (!look(n, next(n), lo, hi, &v)) v = lo > 0 ? lo : hi < 0 ? hi : 0; long x = (long)v; if (x < lo) x = lo; if (x > hi) x = hi; return x; }
long sym_i64(const char *n, long lo, long hi) { return rng(n, lo, hi); }
int sym_int(const char *n, int lo, int hi) { return (int)rng(n, lo, hi); }
void sym_i128(const char *n, void *p) { __int128 v = 0; if (warm) { v = warmIn(n, -100, 100); memcpy(p, &v, 16); return; } look(n, next(n), 0, 0, &v); memcpy(p, &v, 16); }
char sym_ch(const char *n, const char *set) { __int128 v; if (warm) return set[warmIn(n, 0, (long)strlen(set) - 1)]; if (look(n, next(n), 0, 0, &v) && strchr(set, (char)v) && (char)v) return (char)v; return set[0]; }
unsigned char sym_byte(const char *n) { __int128 v = 0; if (warm) return (unsigned char)warmIn(n, 97, 122); look(n, next(n), 0, 0, &v); return (unsigned char)v; }
int sym_pick(const char *n, int k) { return (int)rng(n, 0, k - 1); }
long sym_concrete(long v) { return v; }
void sym_done(void) { if (warm) longjmp(again, 1); fprintf(stderr, "REPLAY-OK\n"); _exit(0); }
void sym_assume(int c) { if (!c) { if (warm) longjmp(again, 1); fprintf(stderr, "REPLAY-ASSUMPTION-FAILED\n"); _exit(0); } }
void sym_assert(int c, const char *m) { if (!c) die("assert", m); }
void sym_reach(const char *l) {}
long sym_param(const char *n, long d) { char a[128]; snprintf(a, sizeof a, "param:%s", n); for (int i = 0; i < nin; i++) if (!strcmp(in[i].name, a)) return (long)in[i].v; return d; }
void sym_exit_ok(int m) { exitMode = m; }
void sym_setenv_precision(const char *v) { if (v) setenv("OSL_PRECISION", v, 1); else unsetenv("OSL_PRECISION"); }
typedef struct { FILE *f; char *b; } MF; static MF mf[64]; static int nmf;
static FILE *reg(FILE *f, char *b) { setvbuf(f, NULL, _IONBF, 0); mf[nmf].f = f; mf[nmf].b = b; nmf = (nmf + 1) % 64; return f; }
FILE *sym_fmem_open(const char *t) { size_t n = strlen(t); char *b = __real_malloc(n + 1); memcpy(b, t, n + 1); FILE *f = n ? fmemopen(b, n, "r") : fopen("/dev/null", "r"); return reg(f, b); }
FILE *sym_fmem_new(void) { size_t n = 1 << 20; char *b = __real_calloc(1, n + 1); return reg(fmemopen(b, n, "w+"), b); }
char *sym_fmem_text(FILE *f) { for (int i = 0; i < 64; i++) if (mf[i].f == f) return mf[i].b; return ""; }
long sym_fmem_pos(FILE *f) { return ftell(f); }
void sym_fmem_close(FILE *f) { for (int i = 0; i < 64; i++) if (mf[i].f == f) { mf[i].f = 0; fclose(f); __real_free(mf[i].b); return; } }
void ENTRY(void);
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r"); char l[4096]; if (!f) return 3;
  while (fgets(l, sizeof l, f)) { if (l[0] == '#' || l[0] == '\n') continue; char *sp = strchr(l, ' '); if (!sp) continue; *sp = 0; in = __real_realloc(in, (nin + 1) * sizeof *in); in[nin].name = __real_strdup(l);
    char *v = sp + 1; __int128 x = 0; if (!strncmp(v, "0x", 2)) { for (v += 2; *v && *v != '\n'; v++) x = (x << 4) | (*v <= '9' ? *v - '0' : (*v | 32) - 'a' + 10); } else x = strtoll(v, 0, 10);
    in[nin].v = x; nin++; }
  fclose(f);
  __gmp_set_memory_functions(gal, gre, gfr);
  unsetenv("OSL_PRECISION");
  size_t dn = __stop_hdata - __start_hdata; char *d0 = __real_malloc(dn + 1); put_back(d0, __start_hdata, dn);
  for (warm = (int)sym_param("warm", 0); warm; warm--) { if (!setjmp(again)) ENTRY(); put_back(__start_hdata, d0, dn); put_back(__start_hbss, NULL, __stop_hbss - __start_hbss); nocc = 0; exitMode = 0; sym_thaw(); }
  ENTRY();
  fprintf(stderr, "REPLAY-OK end\n");
  return 0;
}
#include <gmp.h>
void sym_mpz_set128(mpz_ptr z, const void *p16) { __int128 v = *(const __int128 *)p16; int neg = v < 0; unsigned __int128 m = neg ? -(unsigned __int128)v : (unsigned __int128)v; mpz_set_ui(z, (unsigned long)(m >> 64)); mpz_mul_2exp(z, z, 64); mpz_add_ui(z, z, (unsigned long)m); if (neg) mpz_neg(z, z); }
void sym_mpz_get128(mpz_srcptr z, void *p16) { unsigned __int128 m = 0; mpz_t t, a; mpz_init(t); mpz_init(a); mpz_abs(a, z); mpz_fdiv_q_2exp(t, a, 64); m = ((unsigned __int128)mpz_get_ui(t)) << 64; m |= mpz_get_ui(a); mpz_clear(t); mpz_clear(a); __int128 v = mpz_sgn(z) < 0 ? -(__int128)m : (__int128)m; memcpy(p16, &v, 16); }
