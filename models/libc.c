// Model of the parts of the C library the code under test uses (beyond what the engine does natively).
// Streams live in memory; stdout and stderr swallow what is written.
#include "sym_prim.h"
#include <string.h>
typedef struct { char *b; size_t n, cap, pos; int eof, err, sink; } SF;
static SF sym_out = {0, 0, 0, 0, 0, 0, 1}, sym_err = {0, 0, 0, 0, 0, 0, 1}, sym_in;
void *stdout = &sym_out, *stderr = &sym_err, *stdin = &sym_in;
void *malloc(size_t); void *realloc(void *, size_t); void free(void *);

static void put(SF *f, const char *s, size_t n) {
  if (f->sink || !n) return;
  if (f->pos + n + 1 > f->cap) { f->cap = (f->pos + n + 1) * 2 + 256; f->b = __sym_realloc(f->b, f->cap); }
  memcpy(f->b + f->pos, s, n); f->pos += n; if (f->pos > f->n) { f->n = f->pos; f->b[f->n] = 0; }
}
void *sym_fmem_open(const char *text) { SF *f = __sym_alloc(sizeof(SF)); f->sink = 0; f->n = strlen(text); f->cap = f->n + 1; f->b = __sym_alloc(f->cap); memcpy(f->b, text, f->n + 1); return f; }
void *sym_fmem_new(void) { SF *f = __sym_alloc(sizeof(SF)); f->cap = 64; f->b = __sym_alloc(64); f->b[0] = 0; return f; }
char *sym_fmem_text(void *p) { return ((SF *)p)->b; }
long sym_fmem_pos(void *p) { return (long)((SF *)p)->pos; }
void sym_fmem_close(void *p) { SF *f = p; __sym_free(f->b); __sym_free(f); }

int vfprintf(void *p, const char *fmt, va_list ap) { SF *f = p; if (f->sink) return 1; size_t n; char *t = __sym_vformat(fmt, ap, &n); put(f, t, n); __sym_free(t); return (int)n; }
int fprintf(void *p, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(p, fmt, ap); va_end(ap); return r; }
int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int printf(const char *fmt, ...) { return 1; }
int puts(const char *s) { return 1; }
int putchar(int c) { return c; }
int fputc(int c, void *p) { char ch = (char)c; put(p, &ch, 1); return (unsigned char)c; }
int putc(int c, void *p) { return fputc(c, p); }
int fputs(const char *s, void *p) { put(p, s, strlen(s)); return 1; }
size_t fwrite(const void *b, size_t sz, size_t n, void *p) { put(p, b, sz * n); return n; }
int vsnprintf(char *d, size_t cap, const char *fmt, va_list ap) {
  size_t n; char *t = __sym_vformat(fmt, ap, &n);
  if (cap > n) memcpy(d, t, n + 1); else if (cap) { memcpy(d, t, cap - 1); d[cap - 1] = 0; }
  __sym_free(t); return (int)n;
}
int vsprintf(char *d, const char *fmt, va_list ap) { size_t n; char *t = __sym_vformat(fmt, ap, &n); memcpy(d, t, n + 1); __sym_free(t); return (int)n; }
int snprintf(char *d, size_t cap, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsnprintf(d, cap, fmt, ap); va_end(ap); return r; }
int sprintf(char *d, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vsprintf(d, fmt, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *fmt, va_list ap) { size_t n; char *t = __sym_vformat(fmt, ap, &n); *o = malloc(n + 1); memcpy(*o, t, n + 1); __sym_free(t); return (int)n; }
int asprintf(char **o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vasprintf(o, fmt, ap); va_end(ap); return r; }

int fgetc(void *p) { SF *f = p; if (f->pos >= f->n) { f->eof = 1; return -1; } return (unsigned char)f->b[f->pos++]; }
int getc(void *p) { return fgetc(p); }
int getchar(void) { return -1; }
int ungetc(int c, void *p) { SF *f = p; if (c == -1) return -1; if (!f->pos) return -1; f->pos--; f->eof = 0; return c; }
char *fgets(char *d, int cap, void *p) {
  SF *f = p; int i = 0;
  if (cap <= 0) return 0;
  while (i < cap - 1) { size_t k = f->n - f->pos; if (k > (size_t)(cap - 1 - i)) k = cap - 1 - i; k = __sym_linespan(f->b + f->pos, k); if (k) { memcpy(d + i, f->b + f->pos, k); i += (int)k; f->pos += k; continue; }
    if (f->pos >= f->n) { f->eof = 1; break; } char c = f->b[f->pos++]; d[i++] = c; if (c == '\n') break; }
  if (i == 0 && cap > 1) return 0;
  d[i] = 0; return d;
}
long getline(char **l, size_t *cap, void *p) {
  SF *f = p; size_t i = f->pos;
  if (i >= f->n) { f->eof = 1; return -1; }
  for (;;) { i += __sym_linespan(f->b + i, f->n - i); if (i < f->n && f->b[i] != '\n') i++; else break; }
  if (i < f->n) i++; else f->eof = 1;
  size_t n = i - f->pos;
  if (!*l || *cap < n + 1) { *l = realloc(*l, n + 1); *cap = n + 1; }
  memcpy(*l, f->b + f->pos, n); (*l)[n] = 0; f->pos = i; return (long)n;
}
size_t fread(void *d, size_t sz, size_t n, void *p) { SF *f = p; size_t k = sz ? (f->n - f->pos) / sz : 0; if (k > n) k = n; else if (k < n) f->eof = 1; memcpy(d, f->b + f->pos, k * sz); f->pos += k * sz; return k; }
int feof(void *p) { return ((SF *)p)->eof; }
int ferror(void *p) { return ((SF *)p)->err; }
void clearerr(void *p) { ((SF *)p)->eof = 0; }
int fflush(void *p) { return 0; }
void rewind(void *p) { ((SF *)p)->pos = 0; ((SF *)p)->eof = 0; }
long ftell(void *p) { return (long)((SF *)p)->pos; }
int fseek(void *p, long o, int w) { SF *f = p; long b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->n; if (b + o < 0) return -1; f->pos = b + o; f->eof = 0; return 0; }
int fclose(void *p) { if (((SF *)p)->sink) return 0; sym_fmem_close(p); return 0; }

int vsscanf(const char *s, const char *fmt, va_list ap) { long c; return __sym_vscan(s, fmt, ap, &c); }
int sscanf(const char *s, const char *fmt, ...) { va_list ap; va_start(ap, fmt); long c; int r = __sym_vscan(s, fmt, ap, &c); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *fmt, ...) { va_list ap; va_start(ap, fmt); long c; int r = __sym_vscan(s, fmt, ap, &c); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *fmt, ...) { va_list ap; va_start(ap, fmt); long c; int r = __sym_vscan(s, fmt, ap, &c); va_end(ap); return r; }
static int vfs(SF *f, const char *fmt, va_list ap) { long c; int r = __sym_vscan(f->b + f->pos, fmt, ap, &c); f->pos += c; if (f->pos >= f->n) f->eof = 1; return r; }
int fscanf(void *p, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfs(p, fmt, ap); va_end(ap); return r; }
int __isoc99_fscanf(void *p, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfs(p, fmt, ap); va_end(ap); return r; }
int __isoc23_fscanf(void *p, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfs(p, fmt, ap); va_end(ap); return r; }

int atoi(const char *s) { return (int)__sym_strtoll(s, 0); }
long atol(const char *s) { return (long)__sym_strtoll(s, 0); }
long long atoll(const char *s) { return __sym_strtoll(s, 0); }
#define BASE if (base != 10 && base != 0) __sym_incomplete("strtol with a base other than 10")
static int sym_errno; int *__errno_location(void) { return &sym_errno; }
static long long stl(const char *s, char **e, int base) { BASE; long long v = __sym_strtoll(s, e); if (v == 0x7fffffffffffffffLL || v == -0x7fffffffffffffffLL - 1) { __int128 w; long n; if (__sym_scan128(s, &w, &n) == 1 && w != v) sym_errno = 34; } return v; }
long strtol(const char *s, char **e, int base) { return stl(s, e, base); }
long long strtoll(const char *s, char **e, int base) { return stl(s, e, base); }
unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long)stl(s, e, base); }
long __isoc23_strtol(const char *s, char **e, int base) { return stl(s, e, base); }
long long __isoc23_strtoll(const char *s, char **e, int base) { return stl(s, e, base); }
unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return (unsigned long)stl(s, e, base); }

static const char *sym_env; 
void sym_setenv_precision(const char *v) { sym_env = v; }
char *getenv(const char *n) { return strcmp(n, "OSL_PRECISION") == 0 ? (char *)sym_env : 0; }

char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *strstr(const char *h, const char *n) {
  if (!*n) return (char *)h;
  for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; }
  return 0;
}
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (!*q) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (*q) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
static char *sym_tok;
char *strtok(char *s, const char *d) { return strtok_r(s, d, &sym_tok); }
int strcasecmp(const char *a, const char *b) { int tolower(int); for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *p = b; char *t = __sym_alloc(w);
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) { memcpy(t, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, t, w); }
  __sym_free(t);
}
