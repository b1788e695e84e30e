// P24: the expressions, the comments and the headings written for relations say what their rows say.
// An independent reader of affine expressions: it gives back the coefficient of every column from the names it meets.
#include "wf.h"
enum { NPAR, NITER, NSCAT, NLOC, NARR };
#define NW 12
static char nm[5][NW][2600]; static int nn[5];            // the names in force, and how many there are
static Wf w;
static I128 c1[WC + 1], c2[WC + 1], *co;                  // coefficients read: one per column, the last for columns without a name
static int isword(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '[' || c == ']' || c == '?' || c == '/'; }
static const char *const gen[5] = {"P", "i", "c", "l", "A"};
static void names_generated(void) { for (int k = 0; k < 5; k++) { nn[k] = NW; for (int i = 0; i < NW; i++) sprintf(nm[k][i], "%s%d", gen[k], i + 1); } }
static void name(int k, int i, int kind) {
  static const char *const root[5] = {"N", "x", "t_", "e", "tab"};
  char *d = nm[k][i];
  if (kind == 2 && i < 2) { int n = i ? 2500 : 1022; for (int q = 0; q < n; q++) d[q] = (char)('a' + k); d[n] = 0; }
  else sprintf(d, "%s%d%s", root[k], i, (i + k) % 3 == 0 ? "" : (i + k) % 3 == 1 ? "u" : "_long_name");
}
static osl_strings_t *strings_of(int k) { osl_strings_t *s = osl_strings_malloc(); for (int i = 0; i < nn[k]; i++) osl_strings_add(s, nm[k][i]); return s; }
// kind 0: generated, 1: ordinary names, 2: very long ones, 3: a single one of each, 4: iterators only
static osl_names_t *names(int kind) {
  names_generated(); if (!kind) return NULL;
  osl_names_t *n = osl_names_malloc();
  for (int k = 0; k < 5; k++) { nn[k] = kind == 3 ? 1 : kind == 4 && k != NITER ? 0 : 8; for (int i = 0; i < nn[k]; i++) name(k, i, kind); }
  if (nn[NPAR]) n->parameters = strings_of(NPAR);
  n->iterators = strings_of(NITER);
  if (nn[NSCAT]) n->scatt_dims = strings_of(NSCAT);
  if (nn[NLOC]) n->local_dims = strings_of(NLOC);
  if (nn[NARR]) n->arrays = strings_of(NARR);
  return n;
}
static const char *dim(int k, int i) { return i < nn[k] ? nm[k][i] : "?"; }
static int acc(int type) { return isacc(type) || type == OSL_TYPE_ACCESS; }
static const char *label(const Part *p, int j) {          // the name of column j
  static char b[12];
  if (j == 0) return "e/i";
  j--;
  if (j < p->out) { if (acc(w.type)) { if (j == 0) return "Arr"; sprintf(b, "[%d]", j); return b; } return dim(w.type == OSL_TYPE_DOMAIN || w.type == OSL_TYPE_CONTEXT ? NITER : NSCAT, j); }
  j -= p->out; if (j < p->in) return dim(NITER, j);
  j -= p->in; if (j < p->loc) return dim(NLOC, j);
  j -= p->loc; if (j < p->par) return dim(NPAR, j);
  return "1";
}
static const char *E; static int P;                       // text and position
static int is(const char *s) { int n = (int)strlen(s); for (int i = 0; i < n; i++) if (E[P + i] != s[i]) return 0; return !isword((unsigned char)E[P + n]); }
static void blanks(void) { while (E[P] == ' ' || E[P] == '\t') P++; }
static int term(const Part *p, int first, int arrays) {
  int cols = wcols(p), neg = 0, num = 0; I128 k = 1;
  blanks();
  if (E[P] == '+') { P++; blanks(); }
  else if (E[P] != '-' && !first) return 0;
  if (E[P] == '-' && !(E[P + 1] >= '0' && E[P + 1] <= '9')) { neg = 1; P++; blanks(); }
  if (E[P] == '-' || (E[P] >= '0' && E[P] <= '9')) { char *e; k = strtoll(E + P, &e, 10); CHECK(e > E + P, "not an expression"); P = (int)(e - E); num = 1; blanks(); if (E[P] == '*') { P++; blanks(); num = 2; } }
  if (neg) k = -k;
  if (num == 1) { co[cols - 1] += k; return 1; }
  int found = 0;
  for (int j = 1; j < cols - 1 && !found; j++) { const char *l = label(p, j); if (l[0] != '?' && is(l)) { co[j] += k; P += (int)strlen(l); found = 1; } }
  if (!found && is("?")) { co[WC] += k; P++; found = 1; }
  if (!found && arrays) for (int i = 0; i < nn[NARR] && !found; i++) if (is(nm[NARR][i])) { co[cols - 1] += i + 1; P += (int)strlen(nm[NARR][i]); found = 1; }
  CHECK(found, "an expression names something else than a column");
  return 1;
}
static void expr(const Part *p, I128 *c, int arrays) { co = c; for (int j = 0; j <= WC; j++) c[j] = 0; int n = 0; while (term(p, !n, arrays)) n++; CHECK(n, "an empty expression"); blanks(); }
static int agrees(const Part *p, const I128 *row, int sign) {   // c1 - c2 is sign times the row
  int bad = 0; I128 rest = 0;
  for (int j = 1; j < wcols(p); j++) { I128 v = sign < 0 ? -row[j] : row[j]; if (j < wcols(p) - 1 && label(p, j)[0] == '?') rest += v; else bad |= c1[j] - c2[j] != v; }
  return !(bad | (c1[WC] - c2[WC] != rest));
}
static void comment(const Part *p, int i) {                // from "##" on
  const I128 *row = p->v[i];
  P += 2; expr(p, c1, 0);
  int eq = E[P] == '=';
  CHECK((E[P] == '=' || E[P] == '>') && E[P + 1] == '=', "a comment is not a constraint");
  P += 2; expr(p, c2, acc(w.type));
  CHECK(E[P] == '\n', "a comment says more than the constraint");
  CHECK(eq == (row[0] == 0), "equality and inequality mixed up in a comment");
  int same = agrees(p, row, 1); if (eq) same |= agrees(p, row, -1);
  CHECK(same, "the comment is not the constraint of the row");
}
static void heading(const Part *p) {
  int n = wcols(p), bars[5] = {1, 1 + p->out, 1 + p->out + p->in, 1 + p->out + p->in + p->loc, n - 1};
  P++;
  for (int j = 0; j < n; j++) {
    const char *l = label(p, j); int a = 0;
    blanks();
    while (E[P] && E[P] != ' ' && E[P] != '|' && E[P] != '\n') { if (E[P] == l[a]) a++; else { CHECK(E[P] == '.' && a > 0 && (E[P + 1] == ' ' || E[P + 1] == '|'), "a heading shows another name"); a = (int)strlen(l); } P++; }
    CHECK(a == (int)strlen(l), "a heading cuts a name");
    blanks();
    int bar = 0; for (int b = 0; b < 5; b++) bar |= bars[b] == j + 1;
    if (j < n - 1) { CHECK((E[P] == '|') == bar, "the groups of a heading are wrong"); if (E[P] == '|') P++; }
  }
  blanks(); CHECK(E[P] == '\n', "a heading has too many names");
}
static int starts(const char *s) { int i = 0; for (; s[i]; i++) if (E[P + i] != s[i]) return 0; return 1; }
static void line_end(void) { while (E[P] && E[P] != '\n') P++; }
// the text from P on, up to the last row of the relation w
static void walk(void) {
  for (int k = 0; k < w.parts; k++) { const Part *p = &w.p[k];
    if (!p->rows) continue;
    while (E[P] && !(E[P] == '#' && (starts("# e/i") || starts("#e/i") || starts("#  e/i") || starts("#   e/i")))) { line_end(); if (E[P]) P++; }
    CHECK(E[P], "no heading"); heading(p); P++;
    for (int i = 0; i < p->rows; i++) { while (E[P] && E[P] != '#' && E[P] != '\n') P++; CHECK(E[P] == '#' && E[P + 1] == '#', "a row without its constraint"); comment(p, i); P++; } }
}
static void setup(void) {
  w.type = types[sym_param("type", 1)]; w.prec = (int)sym_param("prec", DP); w.parts = (int)sym_param("parts", 1);
  int shape = (int)sym_param("shape", 1), at = (int)sym_param("at", -1), span = (int)sym_param("span", 1), wide = (int)sym_param("wide", 0);
  wf_shape(&w, shape);
  if (wide) for (int k = 0; k < w.parts; k++) w.p[k].par = wide;
  for (int k = 0; k < w.parts; k++) if (!w.p[k].rows) w.p[k].rows = 1;
  wf_fill(&w, (int)sym_param("seed", 3) + shape);
  if (sym_param("simple", 0)) for (int k = 0; k < w.parts; k++) if (w.p[k].out) { int i = w.p[k].rows - 1; if (isacc(w.type) && !i) continue; for (int j = 0; j <= w.p[k].out; j++) w.p[k].v[i][j] = j == (isacc(w.type) ? w.p[k].out : 1) ? sym_param("simple", 0) : 0; }
  long outs = sym_param("outs", 0);                        // the whole output part of a row
  if (outs) for (int k = 0; k < w.parts; k++) { int i = w.p[k].rows - 1; if (isacc(w.type) && !i) continue; for (int j = 0; j <= w.p[k].out; j++) w.p[k].v[i][j] = sym_i64("o", j ? -outs : 0, j ? outs : 1); }
  long lo = sym_param("lo", LONG_MIN), hi = sym_param("hi", LONG_MAX);
  int n = wf_cells(&w);
  if (w.prec == MP && lo == LONG_MIN) lo++;   // an opposite beyond 64 bits is not what strtoll reads
  if (at >= 0 && n) for (int k = 0; k < span; k++) *wf_cell(&w, (at + k) % n) = sym_i64("v", lo, hi);
  for (int k = 0; k < w.parts; k++) for (int i = 0; i < w.p[k].rows; i++) { sym_assume(w.p[k].v[i][0] >= 0); sym_assume(w.p[k].v[i][0] <= 1); }
}
// the comments of a printed relation
void h_comments(void) {
  int stream = (int)sym_param("stream", 0);
  long base = sym_heap_live();
  setup();
  osl_names_t *n = names((int)sym_param("names", 0));
  osl_relation_t *r = wf_make(&w); char *t; FILE *f = NULL;
  if (stream == 1) { f = sym_fmem_new(); osl_relation_pprint(f, r, n); t = sym_fmem_text(f); }
  else if (stream == 2) { f = sym_fmem_new(); osl_relation_list_t *l = osl_relation_list_malloc(); l->elt = r; osl_relation_list_pprint(f, l, n); l->elt = NULL; osl_relation_list_free(l); t = sym_fmem_text(f); }
  else t = stream == 3 ? osl_relation_spprint_polylib(r, n) : osl_relation_spprint(r, n);
  E = t; P = 0; walk();
  while (E[P]) { CHECK(!(E[P] == '#' && E[P + 1] == '#'), "more constraints than rows"); P++; }
  if (f) sym_fmem_close(f); else free(t);
  osl_relation_free(r); osl_names_free(n); sym_leak_check(base); sym_reach("comments");
}
// the expression of one row, with names given by the caller
void h_expression(void) {
  long base = sym_heap_live();
  setup(); names_generated(); if (sym_param("long", 0)) for (int k = 0; k < 5; k++) for (int i = 0; i < NW; i++) name(k, i, 2);
  osl_relation_t *r = wf_make(&w); Part *p = &w.p[0];
  char **s = malloc((size_t)(wcols(p) + 1) * sizeof(char *)); for (int j = 0; j < wcols(p); j++) { const char *l = label(p, j); s[j] = malloc(strlen(l) + 1); strcpy(s[j], l); } s[wcols(p)] = NULL;
  int i = sym_pick("row", p->rows);
  char *t = osl_relation_expression(r, i, s);
  E = t; P = 0; expr(p, c1, 0); CHECK(!E[P], "more than an expression"); for (int j = 0; j <= WC; j++) c2[j] = 0;
  CHECK(agrees(p, p->v[i], 1), "not the expression of the row");
  free(t); for (int j = 0; j < wcols(p); j++) free(s[j]); free(s);
  osl_relation_free(r); sym_leak_check(base); sym_reach("expression");
}
// a whole scop: parameter names of the scop, iterator names of each body, array names of the arrays extension
static Wf rel[8]; static int nrel;
static osl_relation_t *one(int type, int shape, int parts) {
  Wf *q = &rel[nrel++]; int at = (int)sym_param("at", 0), n = (int)sym_param("rel", 1);
  q->type = type; q->prec = (int)sym_param("prec", DP); q->parts = parts; wf_shape(q, shape); wf_fill(q, shape + nrel);
  for (int k = 0; k < parts; k++) { if (!q->p[k].rows) q->p[k].rows = 1; q->p[k].par = 2; if (type == OSL_TYPE_CONTEXT) q->p[k].loc = 0; } wf_fill(q, shape + nrel);
  if (n == nrel) { I128 *v = wf_cell(q, at % wf_cells(q)); int mark = 0; for (int k = 0; k < parts; k++) for (int i = 0; i < q->p[k].rows; i++) mark |= v == &q->p[k].v[i][0]; *v = sym_i64("v", mark ? 0 : -12, mark ? 1 : 12); }
  return wf_make(q);
}
static void iterators(int body, int s) { nn[NITER] = NW; for (int i = 0; i < NW; i++) if (body) sprintf(nm[NITER][i], "%c%d", s ? 'y' : 'x', i); else sprintf(nm[NITER][i], "i%d", i + 1); if (body) nn[NITER] = 3; }
void h_scop_comments(void) {
  int has = (int)sym_param("has", 15), stmts = 2, via = (int)sym_param("via", 0), shape = (int)sym_param("shape", 1); nrel = 0;
  long base = sym_heap_live();
  osl_scop_t *o = osl_scop_malloc(); o->registry = osl_interface_get_default_registry();
  o->language = malloc(2); strcpy(o->language, "C"); o->context = one(OSL_TYPE_CONTEXT, shape, 1);
  names_generated();
  if (has & 1) { nn[NPAR] = 2; name(NPAR, 0, 1); name(NPAR, 1, 1); o->parameters = osl_generic_shell(strings_of(NPAR), osl_strings_interface()); }
  if (has & 8) { osl_arrays_t *a = osl_arrays_malloc(); nn[NARR] = 4; for (int i = 0; i < 4; i++) { name(NARR, i, 1); osl_arrays_add(a, i + 1, nm[NARR][i]); } o->extension = osl_generic_shell(a, osl_arrays_interface()); }
  osl_statement_t **e = &o->statement;
  for (int s = 0; s < stmts; s++, e = &(*e)->next) {
    osl_statement_t *st = *e = osl_statement_malloc();
    st->domain = one(OSL_TYPE_DOMAIN, shape, 1 + s); st->scattering = one(OSL_TYPE_SCATTERING, shape, 1);
    st->access = osl_relation_list_malloc(); st->access->elt = one(s ? OSL_TYPE_WRITE : OSL_TYPE_READ, shape, 1);
    if (has & (2 << s)) { osl_body_t *b = osl_body_malloc(); iterators(1, s); b->iterators = strings_of(NITER); b->expression = osl_strings_encapsulate(strcpy(malloc(3), "S;")); st->extension = osl_generic_shell(b, osl_body_interface()); }
  }
  FILE *f = sym_fmem_new();
  if (via == 0) osl_scop_print(f, o); else if (via == 1) osl_statement_print(f, o->statement); else { osl_names_t *n = osl_names_malloc(); iterators(0, 0); for (int k = 0; k < 5; k++) { osl_strings_t *q = strings_of(k); if (k == NPAR) n->parameters = q; else if (k == NITER) n->iterators = q; else if (k == NSCAT) n->scatt_dims = q; else if (k == NLOC) n->local_dims = q; else n->arrays = q; } osl_statement_pprint(f, o->statement, n); osl_names_free(n); }
  if (via == 1) { names_generated(); }
  E = sym_fmem_text(f); P = 0;
  for (int q = via ? 1 : 0; q < nrel; q++) { w = rel[q]; int s = q ? (q - 1) / 3 : -1; iterators(s >= 0 && (has & (2 << s)), s); walk(); }
  sym_fmem_close(f); osl_scop_free(o); sym_leak_check(base); sym_reach("scop");
}
