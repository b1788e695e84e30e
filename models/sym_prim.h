// Primitives the engine implements natively; used by the library models only.
#pragma once
#include <stdarg.h>
#include <stddef.h>
void *__sym_alloc(size_t); void __sym_free(void *); void *__sym_realloc(void *, size_t);
char *__sym_vformat(const char *fmt, va_list ap, size_t *n);
int __sym_vscan(const char *s, const char *fmt, va_list ap, long *consumed);
long long __sym_strtoll(const char *s, char **end);
int __sym_scan128(const char *s, void *out16, long *consumed);
size_t __sym_dec128_len(const void *p); size_t __sym_dec128(const void *p, char *dst);
int __sym_is_symbolic(unsigned long long v);
void __sym_incomplete(const char *why);
size_t __sym_linespan(const char *p, size_t n);
