// Every structure of the library, built, read back, and altered field by field in one description ("visit") of its contents.
// Building and reading both record the contents as a stream of fields, which is what the checks compare: none of the library's
// own comparison code is involved. Field number `at` of a built object may be made symbolic.
#pragma once
#include "tok.h"
enum { Z_STRINGS, Z_BODY, Z_NULL, Z_COMMENT, Z_TEXTUAL, Z_SCATINFOS, Z_SCATNAMES, Z_ARRAYS, Z_COORD, Z_CLAY, Z_DEP, Z_SYMBOLS, Z_EXTBODY, Z_LOOP, Z_PLUTO, Z_REGION, Z_ANNOT, Z_IRREG, Z_RELATION,
       Z_EXT, Z_RELLIST = Z_EXT, Z_VECTOR, Z_GENERIC, Z_INTERFACE, Z_STATEMENT, Z_SCOP, Z_END };
enum { BUILD, WALK, SCRAM, SETTO };
enum { FI = 1, FS = 2, FN = 4, FO = 8 };              // classes of fields: integers, texts, counts, presence of an optional part
enum { WORD, LINE, BLOCK, ANY };                       // what a text may hold
typedef struct { char k; I128 v; const char *s; } Fld;
#ifndef MAXF
#define MAXF 4000
#endif
typedef struct { int n; Fld f[MAXF]; } Str;
static int zoff = -1 /* the optional part or list that is absent in every object built */;
static int zmany, zmanyat = -1; // one list of every object built has that many elements
static int zids /* array identifiers up to this only: printing a scop makes a name for each */;
static int zplain /* no extension whose text keeps its layout */;
static int zmode, ztext, zat = -1, zcnt, zcls[MAXF], zseed, zprec = MP, zshape = 1, zlong, zslen = 2, zsym /* every integer of the object symbolic */, zrange, zhit, zsz, zwf /* relation attributes stay consistent */, zscl /* what SCoPLib can express */;   // zat: the field made symbolic while building
static Str *zs; static const Str *zsrc /* SETTO: the fields the object gets, in place */;
static char zbuf[64][8]; static int nzbuf; static char zlongs[5200];
static void rec(char k, I128 v, const char *s) { if (zs) { Fld *f = &zs->f[zs->n++]; f->k = k; f->v = v; f->s = s; } }
static int here(int cls) { zcls[zcnt] = cls; int k = zcnt++, h = k == zat; if (h) zhit = cls; return h | (k == zoff && cls == FO); }
static int zpat(int k) { static const int p[9] = {3, -1, 0, 12, 7, -240, 1, 65536, 2}; return p[(zseed + k) % 9]; }
static int same(const Str *a, const Str *b) {
  if (a->n != b->n) return 0;
  int bad = 0;
  for (int i = 0; i < a->n; i++) {
    if (a->f[i].k != b->f[i].k) return 0;
    bad |= a->f[i].v != b->f[i].v;
    if ((a->f[i].s == NULL) != (b->f[i].s == NULL)) return 0;
    if (a->f[i].s && !same_text(a->f[i].s, b->f[i].s)) return 0; }
  return !bad;
}
// --- fields
static void fi(int *x, int lo, int hi, int def) {
  if (zmode == BUILD) { int h = here(FI) | zsym; *x = h ? sym_int("x", lo, hi) : def; }
  else if (zmode == SCRAM) *x = *x == 77 ? 78 : 77;
  else if (zmode == SETTO) *x = (int)zsrc->f[zs->n].v;
  rec('i', *x, NULL);
}
static void fany(int *x) { fi(x, zrange ? -zrange : INT_MIN, zrange ? zrange : INT_MAX, zpat(zcnt)); }
static void fc(int prec, osl_int_t *x, long def) {    // a coefficient, already initialised
  if (zmode == BUILD) { int h = here(FI) | zsym; I128 v = h ? sym_i64("c", zrange ? -zrange : LONG_MIN, zrange ? zrange : LONG_MAX) : def; osl_int_clear(prec, x); *x = mk(prec, v); }
  else if (zmode == SCRAM) { osl_int_set_si(prec, x, 77); }
  else if (zmode == SETTO) { osl_int_clear(prec, x); *x = mk(prec, zsrc->f[zs->n].v); }
  rec('c', val(prec, *x), NULL);
}
static const char *const heads[4] = {"aZ_0(<[%\\\"/\xe9", "aZ_0(<[%\\\"/\xe9", "aZ0<#%\xe9", "aZ0<#%\n \xe9"}, *const tails[4] = {"b1;>)=/\xff", "b1; \t>)/\xff", "b1 #\n\t/\xff", "b1 #\n\t/\xff"};
static char *newtext(int rule, int k) {               // an own copy in static storage: the reference outlives the object
  if (zlong) { int n = zlong; for (int i = 0; i < n; i++) zlongs[i] = (char)('a' + (i + k) % 23); zlongs[n] = 0; return zlongs; }
  char *b = zbuf[nzbuf++];
  int n = 1 + sym_pick("slen", zslen);
  for (int i = 0; i < n; i++) b[i] = sym_ch("s", i ? tails[rule] : heads[rule]);
  b[n] = 0;
  return b;
}
static const char *const words[16] = {"i", "N1", "x_ab", "j", "A", "tmp2", "k3k", "Q", "ii", "M", "x_a", "jj", "B", "tmp1", "k2", "QQ7"}, *const lines[6] = {"a[i] = b[j] + 1;", "x", "S1(i, j)", "for (;;) /* \"c\" */", "f(p->q, <r>)", "t0 t1"};
static char zallt[5200]; static int zall;   // every text of the object this long
static char *zdup(const char *s) { char *r = malloc(strlen(s) + 1); strcpy(r, s); return r; }
static void fs(char **s, int rule, int opt) {
  if (zmode == BUILD) {
    int k = zcnt;
    if (opt) { if (here(FO)) { *s = NULL; rec('s', 0, NULL); return; } }
    const char *t = here(FS) ? newtext(rule, k) : zall ? zallt : rule == WORD ? words[(k + zseed) % 16] : rule == LINE ? lines[(k + zseed) % 6] : rule == BLOCK ? "first line\n # second\n" : "some\ntext";
    *s = zdup(t); rec('s', 1, t); return;
  }
  if (zmode == SETTO && *s && zsrc->f[zs->n].s) { free(*s); *s = zdup(zsrc->f[zs->n].s); }
  if (zmode == SCRAM && *s && **s) (*s)[0] = (*s)[0] == '~' ? '^' : '~';
  rec('s', *s != NULL, *s);
}
static int fn(int cur, int min, int def) {             // the number of elements of a list
  if (zmode == BUILD) { if (def < min) def = min; if (zsz) { def = zsz - 1; if (def < min) def = min; } int k = zcnt; if (here(FN)) { cur = sym_pick("n", 4); if (cur < min) sym_done(); } else if (k == zoff) { cur = min; if (min == def) sym_done(); } else if (k == zmanyat) cur = zmany; else cur = def; }
  rec('n', cur, NULL); return cur;
}
static int fo(const void *cur, int opt) {              // whether an optional part is there
  int p = cur != NULL;
  if (zmode == BUILD) { p = 1; if (opt && here(FO)) p = 0; }
  rec('o', p, NULL); return p;
}
// --- structures
static void a_strings(osl_strings_t **p, int rule, int min, int def, int opt) {
  if (!fo(*p, opt)) { *p = NULL; return; }
  int n = 0;
  if (zmode != BUILD) while ((*p)->string[n]) n++;
  if (ztext && rule == LINE) { if (zmode == BUILD) n = 1; rec('n', n, NULL); } else n = fn(n, min, def);   // an expression is written as one line
  if (zmode == BUILD) { *p = osl_strings_malloc(); free((*p)->string); (*p)->string = malloc((n + 1) * sizeof(char *)); (*p)->string[n] = NULL; }
  for (int i = 0; i < n; i++) fs(&(*p)->string[i], rule, 0);
}
static void a_body(osl_body_t **p, int opt) {
  if (!fo(*p, opt)) { *p = NULL; return; }
  if (zmode == BUILD) *p = osl_body_malloc();
  a_strings(&(*p)->iterators, WORD, 0, zscl ? 1 + zshape % 2 : zshape, !ztext);
  if (ztext) a_strings(&(*p)->expression, LINE, 1, 1, 0); else a_strings(&(*p)->expression, LINE, 0, 1 + zshape / 2, 1);
}
static void a_part(osl_relation_t **p, int type, int k) {
  static const int dom[2][3] = {{2, 1, 1}, {1, 2, 0}};
  int acc = type == OSL_TYPE_READ || type == OSL_TYPE_WRITE, rows = fn(zmode == BUILD ? 0 : (*p)->nb_rows, zmode == BUILD && (ztext | zwf) && acc, 1 + (k + zshape) % 2), out = 1 + zshape % 2, in = type == OSL_TYPE_DOMAIN || type == OSL_TYPE_CONTEXT ? 0 : 1, loc = (dom[k % 2][2] + zshape) % 2, par = 1;
  if (type == OSL_TYPE_CONTEXT) out = 0;
  if (zscl) { loc = 0; if (in) in = 1 + zshape % 2; }
  int cols = 2 + out + in + loc + par;
  if (zmode == BUILD) { *p = osl_relation_pmalloc(zprec, rows, cols); (*p)->nb_output_dims = out; (*p)->nb_input_dims = in; (*p)->nb_local_dims = loc; (*p)->nb_parameters = par; (*p)->type = type; (*p)->usr = NULL; }
  osl_relation_t *r = *p;
  rec('d', r->precision, NULL); rec('d', r->nb_columns, NULL); rec('d', r->nb_rows, NULL);
  if (ztext | zwf) { rec('d', r->type, NULL); rec('d', r->nb_output_dims, NULL); rec('d', r->nb_input_dims, NULL); rec('d', r->nb_local_dims, NULL); rec('d', r->nb_parameters, NULL); }
  else { fi(&r->type, INT_MIN, INT_MAX, type); fi(&r->nb_output_dims, INT_MIN, INT_MAX, out); fi(&r->nb_input_dims, INT_MIN, INT_MAX, in); fi(&r->nb_local_dims, INT_MIN, INT_MAX, loc); fi(&r->nb_parameters, INT_MIN, INT_MAX, par); }
  for (int i = 0; i < r->nb_rows; i++) for (int j = 0; j < r->nb_columns; j++) {
    if (zmode == BUILD && (ztext | zwf) && (j == 0 || (acc && (i == 0 || j == 1)))) {   // equality tag, and the array row of an access: fixed
      osl_int_set_si(zprec, &r->m[i][j], j == 0 ? !acc && i % 2 : i ? 0 : j == 1 ? -1 : j == r->nb_columns - 1 ? 1 + k : 0); rec('c', val(zprec, r->m[i][j]), NULL); continue; }
    if (zmode == BUILD && zscl && type == OSL_TYPE_SCATTERING && j <= out) { osl_int_set_si(zprec, &r->m[i][j], j == i + 1 ? -1 : 0); rec('c', val(zprec, r->m[i][j]), NULL); continue; }
    fc(r->precision, &r->m[i][j], zpat(i * 5 + j + k)); }
}
static void a_relation(osl_relation_t **p, int type, int min, int def, int opt) {
  if (!fo(*p, opt)) { *p = NULL; return; }
  int n = 0;
  if (zmode != BUILD) for (osl_relation_t *r = *p; r; r = r->next) n++;
  n = fn(n, min, def);
  if (n == 0) { *p = NULL; return; }
  for (int k = 0; k < n; k++) { a_part(p, type, k); p = &(*p)->next; }
}
static void a_rellist(osl_relation_list_t **p, int def) {
  int n = 0;
  if (zmode != BUILD) for (osl_relation_list_t *r = *p; r; r = r->next) n++;
  n = fn(n, 0, def);
  if (n == 0) { *p = NULL; return; }
  for (int k = 0; k < n; k++) { if (zmode == BUILD) *p = osl_relation_list_malloc(); a_relation(&(*p)->elt, k % 2 ? OSL_TYPE_WRITE : OSL_TYPE_READ, 1, 1, !ztext); p = &(*p)->next; }
}
static void a_vector(osl_vector_t **p) {
  int n = fn(*p ? (*p)->size : 0, 0, 2 + zshape);
  if (zmode == BUILD) *p = osl_vector_pmalloc(zprec, n);
  rec('d', (*p)->precision, NULL);
  for (int i = 0; i < n; i++) fc((*p)->precision, &(*p)->v[i], zpat(i));
}
static void a_scatinfos(osl_scatinfos_t **p) {
  int n = fn(*p ? (int)(*p)->nb_scatdims : 0, 0, zshape);
  if (zmode == BUILD) { *p = osl_scatinfos_malloc(); (*p)->nb_scatdims = n; (*p)->parallel = malloc(n * sizeof(int)); (*p)->permutable = malloc(n * sizeof(int)); (*p)->type = malloc(n * sizeof(int)); }
  for (int i = 0; i < n; i++) { fany(&(*p)->parallel[i]); fany(&(*p)->permutable[i]); fany(&(*p)->type[i]); }
}
static void a_arrays(osl_arrays_t **p) {
  int n = fn(*p ? (*p)->nb_names : 0, 0, 1 + zshape);
  if (zmode == BUILD) { *p = osl_arrays_malloc(); (*p)->nb_names = n; (*p)->id = malloc(n * sizeof(int)); (*p)->names = malloc(n * sizeof(char *)); }
  for (int i = 0; i < n; i++) { if (zids) fi(&(*p)->id[i], -2, zids, 1 + (i * 2 + zseed) % zids); else fany(&(*p)->id[i]); fs(&(*p)->names[i], WORD, 0); }
}
static void a_coord(osl_coordinates_t **p) {
  if (zmode == BUILD) *p = osl_coordinates_malloc();
  osl_coordinates_t *c = *p;
  fs(&c->name, LINE, !ztext); fany(&c->line_start); fany(&c->line_end); fany(&c->column_start); fany(&c->column_end); fany(&c->indent);
}
static void a_dep(osl_dependence_t **p) {
  int n = 0;
  if (zmode != BUILD) for (osl_dependence_t *r = *p; r; r = r->next) n++;
  n = fn(n, 1, 1 + zshape / 2);
  static const int ty[6] = {OSL_DEPENDENCE_RAW, OSL_DEPENDENCE_WAR, OSL_DEPENDENCE_WAW, OSL_DEPENDENCE_RAR, OSL_DEPENDENCE_RAW_SCALPRIV, OSL_UNDEFINED};
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) *p = osl_dependence_malloc();
    osl_dependence_t *d = *p;
    if (ztext) { if (zmode == BUILD) d->type = ty[here(FI) ? sym_pick("type", 6) : k % 6]; else if (zmode == SCRAM) d->type = 9; rec('i', d->type, NULL); } else fi(&d->type, INT_MIN, INT_MAX, ty[k % 5]);
    fany(&d->label_source); fany(&d->label_target); fany(&d->ref_source); fany(&d->ref_target); fany(&d->depth);
    fany(&d->source_nb_output_dims_domain); fany(&d->source_nb_output_dims_access); fany(&d->target_nb_output_dims_domain); fany(&d->target_nb_output_dims_access);
    fany(&d->source_nb_local_dims_domain); fany(&d->source_nb_local_dims_access); fany(&d->target_nb_local_dims_domain); fany(&d->target_nb_local_dims_access);
    a_relation(&d->domain, OSL_TYPE_DOMAIN, 1, 1, !ztext);
    p = &d->next; }
}
static void *zvisit(int kind, void *o);
static osl_interface_t *zinterface(int kind);
static const char *const zuri[Z_EXT] = {"strings", "body", "null", "comment", "textual", "scatinfos", "scatnames", "arrays", "coordinates", "clay", "dependence", "symbols", "extbody", "loop", "pluto_unroll", "region", "annotation", "irregular", "relation"};
// a list of extensions: the kinds, ended by -1
static void a_generic(osl_generic_t **p, const int *kinds, int opt) {
  for (int k = 0;; k++) {
    if (zmode == BUILD) {
      while (kinds[k] >= 0 && ((zplain && (kinds[k] == Z_COMMENT || kinds[k] == Z_CLAY)) || (opt && here(FO)))) k++;
      if (kinds[k] < 0) { rec('o', 0, NULL); *p = NULL; return; }
      *p = osl_generic_malloc(); (*p)->interface = zinterface(kinds[k]); rec('o', 1, NULL); rec('k', kinds[k], NULL);
      (*p)->data = zvisit(kinds[k], NULL); p = &(*p)->next; continue; }
    if (!*p) { rec('o', 0, NULL); return; }
    int kind = -1;
    if ((*p)->interface) for (int i = 0; i < Z_EXT; i++) if (!strcmp((*p)->interface->URI, zuri[i])) kind = i;
    rec('o', 1, NULL); rec('k', kind, NULL);
    if (kind >= 0 && (*p)->data) zvisit(kind, (*p)->data); else rec('o', 0, NULL);
    p = &(*p)->next; }
}
static void a_one(osl_generic_t **p, int kind) { int ks[2] = {kind, -1}; a_generic(p, ks, !ztext); }
static void a_symbols(osl_symbols_t **p) {
  int n = 0;
  if (zmode != BUILD) for (osl_symbols_t *r = *p; r; r = r->next) n++;
  n = fn(n, 1, 1 + zshape / 2);
  static const int ty[5] = {OSL_SYMBOL_TYPE_ARRAY, OSL_SYMBOL_TYPE_ITERATOR, OSL_SYMBOL_TYPE_PARAMETER, OSL_SYMBOL_TYPE_FUNCTION, OSL_UNDEFINED};
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) *p = osl_symbols_malloc();
    osl_symbols_t *s = *p;
    if (ztext) { if (zmode == BUILD) s->type = ty[here(FI) ? sym_pick("type", 5) : k % 5]; else if (zmode == SCRAM) s->type = 9; rec('i', s->type, NULL); } else fi(&s->type, INT_MIN, INT_MAX, ty[k % 5]);
    fany(&s->generated); fany(&s->nb_dims);
    a_one(&s->identifier, Z_STRINGS); a_one(&s->datatype, k % 2 ? Z_BODY : Z_STRINGS); a_one(&s->scope, Z_COORD); a_one(&s->extent, k % 2 ? Z_ARRAYS : Z_SCATNAMES);
    p = &s->next; }
}
static void a_extbody(osl_extbody_t **p) {
  int n = fn(*p ? (int)(*p)->nb_access : 0, 0, zshape);
  if (zmode == BUILD) { *p = osl_extbody_malloc(); (*p)->nb_access = n; (*p)->start = malloc(n * sizeof(int)); (*p)->length = malloc(n * sizeof(int)); }
  for (int i = 0; i < n; i++) { fany(&(*p)->start[i]); fany(&(*p)->length[i]); }
  a_body(&(*p)->body, !ztext);
}
static void a_loop(osl_loop_t **p) {
  int n = 0;
  if (zmode != BUILD) for (osl_loop_t *r = *p; r; r = r->next) n++;
  n = fn(n, 1, 1 + zshape / 2);
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) *p = osl_loop_malloc();
    osl_loop_t *l = *p;
    fs(&l->iter, WORD, !ztext);
    int m = fn((int)l->nb_stmts, 0, 1 + zshape / 2);
    if (zmode == BUILD) { l->nb_stmts = m; l->stmt_ids = malloc(m * sizeof(int)); }
    for (int i = 0; i < m; i++) fany(&l->stmt_ids[i]);
    fs(&l->private_vars, LINE, 1);
    if (ztext) {   // the user text is written when the directive says so
      int u = zmode == BUILD ? fn(0, 0, 1) > 0 : fn((l->directive & OSL_LOOP_DIRECTIVE_USER) != 0, 0, 0) > 0;
      if (zmode == BUILD) { zs->f[zs->n - 1].v = u; l->directive = here(FI) ? sym_int("x", INT_MIN, INT_MAX) : 3; l->directive = u ? l->directive | OSL_LOOP_DIRECTIVE_USER : l->directive & ~OSL_LOOP_DIRECTIVE_USER; }
      else if (zmode == SCRAM) l->directive ^= 3;
      rec('i', l->directive, NULL);
      if (u) fs(&l->user, LINE, 1); else rec('s', l->user != NULL, l->user);
    } else { fany(&l->directive); fs(&l->user, LINE, 1); }
    p = &l->next; }
}
static void a_pluto(osl_pluto_unroll_t **p) {
  int n = 0;
  if (zmode != BUILD) for (osl_pluto_unroll_t *r = *p; r; r = r->next) n++;
  n = fn(n, 1, 1 + zshape / 2);
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) *p = osl_pluto_unroll_malloc();
    osl_pluto_unroll_t *l = *p;
    fs(&l->iter, LINE, !ztext);
    int j = l->jam; fi(&j, 0, 1, k % 2); if (zmode == SCRAM) l->jam = !l->jam; else l->jam = j;
    int f = (int)l->factor; fany(&f); l->factor = (unsigned)f;
    p = &l->next; }
}
#define A_TEXT(NAME, TYPE) static void NAME(TYPE *t) { \
  int n = fn(zmode == BUILD ? 0 : (int)t->count, 0, zshape / 2 + 1); \
  if (zmode == BUILD) { t->count = n; t->types = malloc(n * sizeof(int)); t->lines = malloc(n * sizeof(char *)); } \
  for (int i = 0; i < n; i++) { fany(&t->types[i]); fs(&t->lines[i], LINE, 0); } }
A_TEXT(a_rtext, osl_region_text_t)
A_TEXT(a_atext, osl_annotation_text_t)
static void a_region(osl_region_t **p) {
  int n = 0;
  if (zmode != BUILD) for (osl_region_t *r = *p; r; r = r->next) n++;
  n = fn(n, 1, 1 + zshape / 2);
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) *p = osl_region_malloc();
    osl_region_t *r = *p;
    fany(&r->location); a_rtext(&r->prefix); a_rtext(&r->suffix); a_rtext(&r->prelude); a_rtext(&r->postlude);
    p = &r->next; }
}
static void a_annot(osl_annotation_t **p) { if (zmode == BUILD) *p = osl_annotation_malloc(); a_atext(&(*p)->prefix); a_atext(&(*p)->suffix); }
static void a_irreg(osl_irregular_t **p) {
  if (zmode == BUILD) *p = osl_irregular_malloc();
  osl_irregular_t *g = *p;
  int n = fn(g->nb_statements, 0, 1 + zshape / 2);
  if (zmode == BUILD) { g->nb_statements = n; g->nb_predicates = malloc(n * sizeof(int)); g->predicates = malloc(n * sizeof(int *)); }
  for (int i = 0; i < n; i++) {
    int m = fn(zmode == BUILD ? 0 : g->nb_predicates[i], 0, 1 + (i + zshape) % 2);
    if (zmode == BUILD) { g->nb_predicates[i] = m; g->predicates[i] = malloc(m * sizeof(int)); }
    for (int j = 0; j < m; j++) fany(&g->predicates[i][j]); }
  g->nb_control = fn(g->nb_control, 0, 1); g->nb_exit = fn(g->nb_exit, 0, zshape / 2 + 1);
  int q = g->nb_control + g->nb_exit;
  if (zmode == BUILD) { g->nb_iterators = malloc(q * sizeof(int)); g->iterators = malloc(q * sizeof(char **)); g->body = malloc(q * sizeof(char *)); }
  for (int i = 0; i < q; i++) {
    int m = fn(zmode == BUILD ? 0 : g->nb_iterators[i], 0, 1 + i % 2);
    if (zmode == BUILD) { g->nb_iterators[i] = m; g->iterators[i] = malloc(m * sizeof(char *)); }
    for (int j = 0; j < m; j++) fs(&g->iterators[i][j], WORD, 0);
    fs(&g->body[i], LINE, 0); }
}
static void a_interface(osl_interface_t **p, int def) {
  int n = 0;
  if (zmode != BUILD) for (osl_interface_t *r = *p; r; r = r->next) n++;
  n = fn(n, 0, def);
  if (n == 0) { *p = NULL; return; }
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) { *p = zinterface((k * 4 + 1) % 19); free((*p)->URI); (*p)->URI = NULL; }
    osl_interface_t *f = *p;
    fs(&f->URI, WORD, 0);
    if (zmode == SCRAM) { f->idump = NULL; f->sprint = NULL; f->sread = NULL; f->malloc = NULL; f->free = NULL; f->clone = NULL; f->equal = NULL; }
    rec('f', (long)f->idump, NULL); rec('f', (long)f->sprint, NULL); rec('f', (long)f->sread, NULL); rec('f', (long)f->malloc, NULL); rec('f', (long)f->free, NULL); rec('f', (long)f->clone, NULL); rec('f', (long)f->equal, NULL);
    p = &f->next; }
}
static const int stext[4][6] = {{Z_BODY, Z_COMMENT, -1}, {Z_EXTBODY, Z_LOOP, -1}, {-1}, {Z_LOOP, Z_BODY, Z_NULL, Z_STRINGS, -1}}, ptext[] = {Z_STRINGS, -1},
  xtext[6][6] = {{Z_ARRAYS, Z_COORD, Z_SCATNAMES, -1}, {Z_COMMENT, Z_CLAY, Z_SCATINFOS, Z_DEP, -1}, {Z_SYMBOLS, Z_LOOP, Z_PLUTO, -1}, {Z_REGION, Z_ANNOT, Z_EXTBODY, Z_NULL, -1}, {-1}, {Z_STRINGS, Z_BODY, Z_ARRAYS, -1}};
static int zxset, zsset;       // which of these lists of extensions
static int zst, zun;           // number of statements; whether the numbers of domain and scattering parts of each are arbitrary, up to this
static void a_unions(osl_relation_t **p, int type) {
  int n = 0;
  if (zmode != BUILD) for (osl_relation_t *r = *p; r; r = r->next) n++; else n = sym_pick("parts", zun + 1);
  rec('n', n, NULL);
  for (int k = 0; k < n; k++) { a_part(p, type, k); p = &(*p)->next; }
  if (zmode == BUILD) *p = NULL;
}
static void a_statement(osl_statement_t **p, int min) {
  int n = 0;
  if (zmode != BUILD) for (osl_statement_t *r = *p; r; r = r->next) n++;
  n = fn(n, min, zst);
  if (n == 0) { *p = NULL; return; }
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) *p = osl_statement_malloc();
    osl_statement_t *s = *p;
    if (zun) { a_unions(&s->domain, OSL_TYPE_DOMAIN); a_unions(&s->scattering, OSL_TYPE_SCATTERING); }
    else { a_relation(&s->domain, OSL_TYPE_DOMAIN, 1, 1 + (zshape + k) % 2, 1); a_relation(&s->scattering, OSL_TYPE_SCATTERING, 1, 1, 1); }
    a_rellist(&s->access, 1 + (zshape + k) % 2);
    a_generic(&s->extension, stext[(k + zsset) % 4], 1);
    p = &s->next; }
}
static void a_scop(osl_scop_t **p, int n) {
  int c = 0;
  if (zmode != BUILD) for (osl_scop_t *r = *p; r; r = r->next) c++;
  n = fn(c, 1, n);
  for (int k = 0; k < n; k++) {
    if (zmode == BUILD) *p = osl_scop_malloc();
    osl_scop_t *s = *p;
    if (ztext) rec('i', s->version, NULL); else fany(&s->version);
    fs(&s->language, WORD, !ztext);
    a_relation(&s->context, OSL_TYPE_CONTEXT, 1, 1, !ztext);
    a_generic(&s->parameters, ptext, 1);
    a_statement(&s->statement, 0);
    if (!ztext) a_interface(&s->registry, k + 1);
    a_generic(&s->extension, xtext[(k + zxset) % 6], 1);
    p = &s->next; }
}
static osl_interface_t *zinterface(int kind) {
  switch (kind) {
    case Z_STRINGS: return osl_strings_interface(); case Z_BODY: return osl_body_interface(); case Z_NULL: return osl_null_interface(); case Z_COMMENT: return osl_comment_interface();
    case Z_TEXTUAL: return osl_textual_interface(); case Z_SCATINFOS: return osl_scatinfos_interface(); case Z_SCATNAMES: return osl_scatnames_interface(); case Z_ARRAYS: return osl_arrays_interface();
    case Z_COORD: return osl_coordinates_interface(); case Z_CLAY: return osl_clay_interface(); case Z_DEP: return osl_dependence_interface(); case Z_SYMBOLS: return osl_symbols_interface();
    case Z_EXTBODY: return osl_extbody_interface(); case Z_LOOP: return osl_loop_interface(); case Z_PLUTO: return osl_pluto_unroll_interface(); case Z_REGION: return osl_region_interface();
    case Z_ANNOT: return osl_annotation_interface(); case Z_IRREG: return osl_irregular_interface(); case Z_RELATION: return osl_relation_interface(); }
  return NULL;
}
static const int gkinds[] = {Z_ARRAYS, Z_BODY, Z_COORD, Z_CLAY, -1};
static void *zvisit(int kind, void *o) {
  void *p = o;
  switch (kind) {
    case Z_STRINGS: { osl_strings_t *x = p; rec('o', 1, NULL); int n = 0; if (zmode != BUILD) while (x->string[n]) n++;
        n = fn(n, ztext, zshape);
        if (zmode == BUILD) { p = x = osl_strings_malloc(); free(x->string); x->string = malloc((n + 1) * sizeof(char *)); x->string[n] = NULL; }
        for (int i = 0; i < n; i++) fs(&x->string[i], WORD, 0); break; }
    case Z_BODY: a_body((osl_body_t **)&p, 0); break;
    case Z_NULL: if (zmode == BUILD) p = osl_null_malloc(); rec('o', 1, NULL); break;
    case Z_COMMENT: if (zmode == BUILD) p = osl_comment_malloc(); fs(&((osl_comment_t *)p)->comment, BLOCK, !ztext); break;
    case Z_TEXTUAL: if (zmode == BUILD) p = osl_textual_malloc(); fs(&((osl_textual_t *)p)->textual, ANY, !ztext); break;
    case Z_SCATINFOS: a_scatinfos((osl_scatinfos_t **)&p); break;
    case Z_SCATNAMES: if (zmode == BUILD) p = osl_scatnames_malloc(); a_strings(&((osl_scatnames_t *)p)->names, WORD, ztext, zshape, !ztext); break;
    case Z_ARRAYS: a_arrays((osl_arrays_t **)&p); break;
    case Z_COORD: a_coord((osl_coordinates_t **)&p); break;
    case Z_CLAY: if (zmode == BUILD) p = osl_clay_malloc(); fs(&((osl_clay_t *)p)->script, BLOCK, !ztext); break;
    case Z_DEP: a_dep((osl_dependence_t **)&p); break;
    case Z_SYMBOLS: a_symbols((osl_symbols_t **)&p); break;
    case Z_EXTBODY: a_extbody((osl_extbody_t **)&p); break;
    case Z_LOOP: a_loop((osl_loop_t **)&p); break;
    case Z_PLUTO: a_pluto((osl_pluto_unroll_t **)&p); break;
    case Z_REGION: a_region((osl_region_t **)&p); break;
    case Z_ANNOT: a_annot((osl_annotation_t **)&p); break;
    case Z_IRREG: a_irreg((osl_irregular_t **)&p); break;
    case Z_RELATION: a_relation((osl_relation_t **)&p, OSL_TYPE_DOMAIN, 1, zshape, 0); break;
    case Z_RELLIST: a_rellist((osl_relation_list_t **)&p, 1 + zshape); break;
    case Z_VECTOR: a_vector((osl_vector_t **)&p); break;
    case Z_GENERIC: a_generic((osl_generic_t **)&p, gkinds, 1); break;
    case Z_INTERFACE: a_interface((osl_interface_t **)&p, zshape); break;
    case Z_STATEMENT: a_statement((osl_statement_t **)&p, 0); break;
    case Z_SCOP: a_scop((osl_scop_t **)&p, zscl ? 1 : 1 + zshape / 2); break; }
  return p;
}
static void zfree(int kind, void *o) {
  switch (kind) {
    case Z_RELLIST: osl_relation_list_free(o); return; case Z_VECTOR: osl_vector_free(o); return; case Z_GENERIC: osl_generic_free(o); return;
    case Z_INTERFACE: osl_interface_free(o); return; case Z_STATEMENT: osl_statement_free(o); return; case Z_SCOP: osl_scop_free(o); return; }
  osl_interface_t *f = zinterface(kind); f->free(o); osl_interface_free(f);
}
static int zequal(int kind, const void *a, const void *b) {
  switch (kind) {
    case Z_RELLIST: return osl_relation_list_equal(a, b); case Z_VECTOR: return osl_vector_equal(a, b); case Z_GENERIC: return osl_generic_equal(a, b);
    case Z_INTERFACE: return osl_interface_equal(a, b); case Z_STATEMENT: return osl_statement_equal(a, b); case Z_SCOP: return osl_scop_equal(a, b); }
  osl_interface_t *f = zinterface(kind); int r = f->equal(a, b); osl_interface_free(f); return r;
}
static void *zclone(int kind, const void *a) {
  switch (kind) {
    case Z_RELLIST: return osl_relation_list_clone(a); case Z_GENERIC: return osl_generic_clone(a);
    case Z_INTERFACE: return osl_interface_clone(a); case Z_STATEMENT: return osl_statement_clone(a); case Z_SCOP: return osl_scop_clone(a); }
  osl_interface_t *f = zinterface(kind); void *r = f->clone(a); osl_interface_free(f); return r;
}
static void zidump(int kind, FILE *o, const void *a, int level) {
  switch (kind) {
    case Z_RELLIST: osl_relation_list_idump(o, a, level); return; case Z_VECTOR: osl_vector_idump(o, a, level); return; case Z_GENERIC: osl_generic_idump(o, a, level); return;
    case Z_INTERFACE: osl_interface_idump(o, a, level); return; case Z_STATEMENT: osl_statement_idump(o, a, level); return; case Z_SCOP: osl_scop_idump(o, a, level); return; }
  osl_interface_t *f = zinterface(kind); f->idump(o, a, level); osl_interface_free(f);
}
static void zdump(int kind, FILE *o, const void *a) {
  typedef void (*D)(FILE *, const void *);
  static D const d[25] = {(D)osl_strings_dump, (D)osl_body_dump, (D)osl_null_dump, (D)osl_comment_dump, (D)osl_textual_dump, (D)osl_scatinfos_dump, (D)osl_scatnames_dump, (D)osl_arrays_dump, (D)osl_coordinates_dump, (D)osl_clay_dump, (D)osl_dependence_dump, (D)osl_symbols_dump, (D)osl_extbody_dump, (D)osl_loop_dump, (D)osl_pluto_unroll_dump, (D)osl_region_dump, (D)osl_annotation_dump, (D)osl_irregular_dump, (D)osl_relation_dump, (D)osl_relation_list_dump, (D)osl_vector_dump, (D)osl_generic_dump, (D)osl_interface_dump, (D)osl_statement_dump, (D)osl_scop_dump};
  d[kind](o, a);
}
static char *zsprint(int kind, const void *a) { osl_interface_t *f = zinterface(kind); char *r = f->sprint(a); osl_interface_free(f); return r; }
static void *zsread(int kind, char **s) { osl_interface_t *f = zinterface(kind); void *r = f->sread(s); osl_interface_free(f); return r; }
static void *zmake(int kind, Str *to) { zmode = BUILD; zs = to; if (to) to->n = 0; zcnt = 0; zhit = 0; return zvisit(kind, NULL); }
static void zread(int kind, void *o, Str *to) { zmode = WALK; zs = to; to->n = 0; if (o) zvisit(kind, o); }
static void zscramble(int kind, void *o, Str *to) { zmode = SCRAM; zs = to; to->n = 0; if (o) zvisit(kind, o); }
static void zset(int kind, void *o, const Str *from, Str *to) { zmode = SETTO; zsrc = from; zs = to; to->n = 0; if (o) zvisit(kind, o); }
// picks the field to make symbolic among those of the classes; 0 when the kind has none
static int zchoose(int kind, int mask) {
  static int sel[MAXF]; static Str dummy; int n = 0, ks = zsym;
  zat = -1; zoff = -1; zsym = 0; void *o = zmake(kind, &dummy); zfree(kind, o);
  if (sym_param("off", 0)) {   // one optional part or list absent from the start, and then any one field arbitrary
    for (int i = 0; i < zcnt; i++) if (zcls[i] & (FO | FN)) sel[n++] = i;
    if (!n) sym_done();
    zoff = sel[sym_pick("off", n)]; n = 0; o = zmake(kind, &dummy); zfree(kind, o); }
  int many = (int)sym_param("many", 0), from = 0, to = zcnt;
  if (many) {             // one list with many elements, one field of its last element arbitrary (any field of it where elements are small)
    for (int i = 0; i < zcnt; i++) if (zcls[i] & FN) sel[n++] = i;
    if (!n) sym_done();
    zmanyat = sel[sym_pick("many", n)]; n = 0;
    zmany = many - 1; o = zmake(kind, &dummy); zfree(kind, o); int c = zcnt;
    zmany = many; o = zmake(kind, &dummy); zfree(kind, o); int d = zcnt - c;
    to = zmanyat + 1 + many * d; from = d > 3 ? to - d : zmanyat + 1; }
  for (int i = from; i < to; i++) if ((zcls[i] & mask) && i != zoff && i != zmanyat) sel[n++] = i;
  if (many && !n) { zsym = ks; return 1; }
  zsym = ks; if (!n) return 0;
  zsym = ks; zat = sel[sym_pick("at", n)]; return 1;
}
static void zsetup(void) { zshape = (int)sym_param("shape", 1); zseed = (int)sym_param("seed", 0); zlong = (int)sym_param("long", 0); zslen = (int)sym_param("slen", 2); zrange = (int)sym_param("range", 0); zst = (int)sym_param("stmts", 1); zprec = (int)sym_param("prec", MP); zsz = (int)sym_param("size", 0); zwf = (int)sym_param("wf", 0); zplain = (int)sym_param("plain", 0); zids = (int)sym_param("ids", 0); zxset = (int)sym_param("xset", 0); zsset = (int)sym_param("sset", 0); zscl = (int)sym_param("scoplib", 0); zsym = (int)sym_param("allsym", 0); zall = (int)sym_param("all", 0); for (int i = 0; i < zall; i++) zallt[i] = (char)('A' + i % 25); }
