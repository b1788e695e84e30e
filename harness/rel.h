// Relations and vectors with symbolic contents, and the reference value each must keep.
#pragma once
#include "num.h"
#define MAXR 13
#define MAXC 12
typedef struct { int rows, cols, type, out, in, loc, par, prec; I128 v[MAXR][MAXC]; } Ref;
static long cell_lo = LONG_MIN, cell_hi = LONG_MAX;   // range of the coefficients
static I128 cellval(const char *nm, int prec) {
  long v = sym_i64(nm, cell_lo, cell_hi);
  if (prec == MP && sym_param("big", 0)) return (I128)v * ((I128)1 << 40) + 12345;
  return v;
}
static void setcell(osl_relation_t *r, int i, int j, I128 v) { osl_int_clear(r->precision, &r->m[i][j]); r->m[i][j] = mk(r->precision, v); }
// a part: symbolic cells over the whole range, attributes any int
static osl_relation_t *part(Ref *f, const char *nm, int prec, int rows, int cols) {
  osl_relation_t *r = osl_relation_pmalloc(prec, rows, cols);
  f->rows = rows; f->cols = cols; f->prec = prec;
  r->type = f->type = sym_int("type", INT_MIN, INT_MAX);
  r->nb_output_dims = f->out = sym_int("out", INT_MIN, INT_MAX); r->nb_input_dims = f->in = sym_int("in", INT_MIN, INT_MAX);
  r->nb_local_dims = f->loc = sym_int("loc", INT_MIN, INT_MAX); r->nb_parameters = f->par = sym_int("par", INT_MIN, INT_MAX);
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { f->v[i][j] = cellval(nm, prec); setcell(r, i, j, f->v[i][j]); }
  return r;
}
static int samecells(const osl_relation_t *r, const Ref *f) {
  int bad = 0;
  for (int i = 0; i < f->rows; i++) for (int j = 0; j < f->cols; j++) bad |= val(f->prec, r->m[i][j]) != f->v[i][j];
  return !bad;
}
static int sameshape(const osl_relation_t *r, const Ref *f) { return (r->nb_rows == f->rows) & (r->nb_columns == f->cols) & (r->precision == f->prec); }
static int sameattr(const osl_relation_t *r, const Ref *f) {
  return (r->type == f->type) & (r->nb_output_dims == f->out) & (r->nb_input_dims == f->in) & (r->nb_local_dims == f->loc) & (r->nb_parameters == f->par);
}
#define SHAPE(r, f, m) CHECK(sameshape(r, f), m ": wrong size or precision")
#define CELLS(r, f, m) CHECK(samecells(r, f), m ": wrong coefficient")
#define ATTR(r, f, m) CHECK(sameattr(r, f), m ": type or dimensions changed")
#define SAME(r, f, m) do { CHECK((r) != NULL, m ": absent"); SHAPE(r, f, m); CELLS(r, f, m); ATTR(r, f, m); } while (0)
static osl_vector_t *vec(I128 *v, const char *nm, int prec, int n) {
  osl_vector_t *w = osl_vector_pmalloc(prec, n);
  for (int i = 0; i < n; i++) { v[i] = cellval(nm, prec); osl_int_clear(prec, &w->v[i]); w->v[i] = mk(prec, v[i]); }
  return w;
}
static int samevec(const osl_vector_t *w, const I128 *v, int prec, int n) {
  if (w->size != n || w->precision != prec) return 0;
  int bad = 0;
  for (int i = 0; i < n; i++) bad |= val(prec, w->v[i]) != v[i];
  return !bad;
}
// a position: any int; accepted exactly in [lo,hi]; returns it, made concrete when accepted
static int okpos;
static int position(const char *nm, int lo, int hi) {
  int p = sym_int(nm, INT_MIN, INT_MAX);
  okpos = p >= lo && p <= hi;
  if (okpos) { sym_exit_ok(0); p = (int)sym_concrete(p); } else { sym_exit_ok(1); sym_reach("refused"); }
  return p;
}
#define ACCEPTED() do { sym_exit_ok(0); CHECK(okpos, "an out-of-range position was accepted"); sym_reach("edited"); } while (0)
