// Harness interface: executed symbolically by the engine, and natively (from a counterexample file) by replay.c.
#pragma once
#if defined(__clang__)
#pragma clang section bss="hbss" data="hdata"   // natively, replay.c puts these back between two runs
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <osl/osl.h>
#include <osl/macros.h>
#include <osl/util.h>
#include <osl/int.h>
#include <osl/vector.h>
#include <osl/strings.h>
#include <osl/attributes.h>
#include <osl/relation.h>
#include <osl/relation_list.h>
#include <osl/interface.h>
#include <osl/generic.h>
#include <osl/names.h>
#include <osl/body.h>
#include <osl/statement.h>
#include <osl/scop.h>
#include <osl/extensions/annotation.h>
#include <osl/extensions/arrays.h>
#include <osl/extensions/clay.h>
#include <osl/extensions/comment.h>
#include <osl/extensions/coordinates.h>
#include <osl/extensions/dependence.h>
#include <osl/extensions/extbody.h>
#include <osl/extensions/irregular.h>
#include <osl/extensions/loop.h>
#include <osl/extensions/null.h>
#include <osl/extensions/pluto_unroll.h>
#include <osl/extensions/region.h>
#include <osl/extensions/scatinfos.h>
#include <osl/extensions/scatnames.h>
#include <osl/extensions/symbols.h>
#include <osl/extensions/textual.h>

long sym_i64(const char *name, long lo, long hi);      // any value of [lo,hi]
int sym_int(const char *name, int lo, int hi);
void sym_i128(const char *name, void *p16);
char sym_ch(const char *name, const char *set);        // any character of the set
unsigned char sym_byte(const char *name);
int sym_pick(const char *name, int n);                 // any of 0..n-1, explored one by one
long sym_concrete(long v);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_reach(const char *label);
long sym_param(const char *name, long def);
void sym_exit_ok(int mode);                            // 0: the library must not stop the program; 1: it may
long sym_heap_live(void);
void sym_leak_check(long base);
void sym_freeze(void); void sym_unchanged(const char *msg); void sym_thaw(void);
long sym_common(const char *a, const char *b);   // a number of leading bytes the two texts share
void sym_done(void);
FILE *sym_fmem_open(const char *text); FILE *sym_fmem_new(void); char *sym_fmem_text(FILE *); long sym_fmem_pos(FILE *); void sym_fmem_close(FILE *);
void sym_setenv_precision(const char *);
#define CHECK(c, m) sym_assert((c) != 0, m)
#define SP OSL_PRECISION_SP
#define DP OSL_PRECISION_DP
#define MP OSL_PRECISION_MP
