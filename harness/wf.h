// Well-formed relations: type, dimensions and coefficients as a description from which both the relation and its expected text are made.
#pragma once
#include "tok.h"
#define WP 4
#define WR 5
#define WC 60
typedef struct { int rows, out, in, loc, par; I128 v[WR][WC]; } Part;
typedef struct { int type, prec, parts; Part p[WP]; } Wf;
static const int types[8] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_UNDEFINED, OSL_TYPE_ACCESS};
static const char *const tnames[8] = {"CONTEXT", "DOMAIN", "SCATTERING", "READ", "WRITE", "MAY_WRITE", "UNDEFINED", "UNDEFINED"};
static int wcols(const Part *p) { return 2 + p->out + p->in + p->loc + p->par; }
static int isacc(int type) { return type == OSL_TYPE_READ || type == OSL_TYPE_WRITE || type == OSL_TYPE_MAY_WRITE; }
// fixed coefficients (0, 1, -1, one and several digits, both signs), the array row of accesses in place
static void wf_fill(Wf *w, int seed) {
  static const int pat[11] = {1, 0, -1, 7, 0, -38, 2, 1500, -1, 0, -9};
  for (int k = 0; k < w->parts; k++) { Part *p = &w->p[k]; int c = wcols(p);
    for (int i = 0; i < p->rows; i++) for (int j = 0; j < c; j++) p->v[i][j] = j == 0 ? (i + k + seed) % 2 : pat[(seed + k * 5 + i * 3 + j) % 11];
    if (isacc(w->type) && p->rows > 0 && p->out > 0) { for (int i = 0; i < p->rows; i++) p->v[i][1] = 0; for (int j = 0; j < c; j++) p->v[0][j] = 0; p->v[0][1] = seed % 2 ? 1 : -1; p->v[0][c - 1] = seed % 2 ? -(1 + seed % 3) : 1 + seed % 3; } }
}
static void wf_shape(Wf *w, int shape) {  // shapes by type; parts differ from one another
  for (int k = 0; k < w->parts; k++) { Part *p = &w->p[k]; int x = shape + k; p->rows = (x + 1) % 4; p->loc = x % 3 == 2 ? 2 : x % 2; p->par = (shape / 2) % 3;
    if (w->type == OSL_TYPE_CONTEXT) { p->out = p->in = 0; }
    else if (w->type == OSL_TYPE_DOMAIN) { p->out = 1 + shape % 3; p->in = 0; }
    else if (w->type == OSL_TYPE_SCATTERING) { p->in = 1 + shape % 2; p->out = 2 * p->in + 1; }
    else if (w->type == OSL_UNDEFINED) { p->in = shape % 3; p->out = 1 + x % 2; }
    else { p->in = 1 + shape % 2; p->out = 1 + x % 3; if (!p->rows) p->rows = 1; } }
}
static osl_relation_t *wf_make(const Wf *w) {
  osl_relation_t *r = NULL, **e = &r;
  for (int k = 0; k < w->parts; k++) { const Part *p = &w->p[k]; osl_relation_t *q = osl_relation_pmalloc(w->prec, p->rows, wcols(p));
    q->type = w->type; q->nb_output_dims = p->out; q->nb_input_dims = p->in; q->nb_local_dims = p->loc; q->nb_parameters = p->par;
    for (int i = 0; i < p->rows; i++) for (int j = 0; j < wcols(p); j++) { osl_int_clear(w->prec, &q->m[i][j]); q->m[i][j] = mk(w->prec, p->v[i][j]); }
    *e = q; e = &q->next; }
  return r;
}
static int wf_sameparts(const osl_relation_t *r, const Wf *w) {
  int bad = 0;
  for (int k = 0; k < w->parts; k++, r = r->next) { const Part *p = &w->p[k];
    if (!r) return 0;
    if (r->nb_rows != p->rows || r->nb_columns != wcols(p)) return 0;
    bad |= (r->type != w->type) | (r->precision != w->prec) | (r->nb_output_dims != p->out) | (r->nb_input_dims != p->in) | (r->nb_local_dims != p->loc) | (r->nb_parameters != p->par);
    for (int i = 0; i < p->rows; i++) for (int j = 0; j < wcols(p); j++) bad |= val(w->prec, r->m[i][j]) != p->v[i][j]; }
  return !bad && r == NULL;
}
// the k-th coefficient of the whole union, in reading order
static I128 *wf_cell(Wf *w, int at) {
  for (int k = 0; k < w->parts; k++) { int n = w->p[k].rows * wcols(&w->p[k]); if (at < n) return &w->p[k].v[at / wcols(&w->p[k])][at % wcols(&w->p[k])]; at -= n; }
  return NULL;
}
static int wf_cells(const Wf *w) { int n = 0; for (int k = 0; k < w->parts; k++) n += w->p[k].rows * wcols(&w->p[k]); return n; }
// its text; gap(i) writes what separates two lines, and may be NULL
static int wf_counted; // the number of parts is written even when there is one
static void wf_text(const Wf *w, int with_type, void (*gap)(void)) {
  if (with_type) for (int i = 0; i < 8; i++) if (types[i] == w->type) { put(tnames[i]); put("\n"); break; }
  if (w->parts > 1 || wf_counted) { if (gap) gap(); puti(w->parts); put("\n"); }
  for (int k = 0; k < w->parts; k++) { const Part *p = &w->p[k];
    if (gap) gap();
    puti(p->rows); put(" "); puti(wcols(p)); put(" "); puti(p->out); put(" "); puti(p->in); put(" "); puti(p->loc); put(" "); puti(p->par); put("\n");
    for (int i = 0; i < p->rows; i++) { if (gap) gap(); for (int j = 0; j < wcols(p); j++) { if (j) put(" "); puti((long)p->v[i][j]); } put("\n"); } }
}
// names for its columns: kind 1 ordinary, 2 very long, 3 too few, 4 none at all of some kinds
static osl_names_t *wf_names(int kind) {
  osl_names_t *n = osl_names_malloc();
  osl_strings_t **s[5] = {&n->parameters, &n->iterators, &n->scatt_dims, &n->local_dims, &n->arrays};
  for (int i = 0; i < 5; i++) {
    if (kind == 4 && i != 1) continue;
    *s[i] = osl_strings_malloc();
    if (kind != 3) for (int k = 0; k < 8; k++) {
      char b[5000]; int l = kind == 2 && k < 2 ? (k ? 2500 : 1022) : 1 + k % 3; for (int q = 0; q < l; q++) b[q] = (char)('a' + (i + k + q) % 26);
      b[l] = 0; osl_strings_add(*s[i], b); }
  }
  return n;
}
