// P04 copies, P05 comparison, P06 lifetimes, P23 observers: every structure, with any one of its fields arbitrary.
#include "zoo.h"
static Str A, B, C;
#define KIND ((int)sym_param("kind", Z_ARRAYS))
#define MASK ((int)sym_param("mask", FI | FS | FN | FO))
static int setup(int kind) { zsetup(); zat = -1; if (MASK && !zchoose(kind, MASK)) { if (kind != Z_NULL) { sym_done(); return 0; } zat = -1; } return 1; }
void h_clone(void) {
  int kind = KIND; if (!setup(kind)) return;
  long live = sym_heap_live();
  void *o = zmake(kind, &A);
  sym_freeze(); void *c = zclone(kind, o); sym_unchanged("cloning altered the source"); sym_thaw();
  if (!o) { CHECK(c == NULL, "the clone of nothing is something"); sym_reach("empty"); return; }
  CHECK(c != NULL && c != o, "no clone");
  zread(kind, c, &B); CHECK(same(&A, &B), "the clone differs from the original");
  if (sym_pick("dir", 2)) {
    zscramble(kind, c, &B); zread(kind, o, &B); CHECK(same(&A, &B), "changing the clone changed the original");
    zfree(kind, c); zread(kind, o, &B); CHECK(same(&A, &B), "freeing the clone changed the original"); zfree(kind, o);
  } else {
    zscramble(kind, o, &B); zread(kind, c, &B); CHECK(same(&A, &B), "changing the original changed the clone");
    zfree(kind, o); zread(kind, c, &B); CHECK(same(&A, &B), "freeing the original changed the clone"); zfree(kind, c);
  }
  sym_leak_check(live); sym_reach("cloned");
}
// copies of the first elements: the reference is the original cut there for the time of reading it
enum { P_PARTS, P_ROWS, P_STATEMENT, P_GENERIC, P_INTERFACE, P_SYMBOLS, P_LOOP1, P_REGION1, P_NODE };
#define CUT(T, LIST) { T *l_ = LIST; T *keep = NULL; if (n > 0) { for (int i = 1; i < n; i++) l_ = l_->next; keep = l_->next; l_->next = NULL; zread(kind, o, &A); l_->next = keep; } else { zread(kind, NULL, &A); } }
void h_partial(void) {
  int which = (int)sym_param("which", P_PARTS), len = 3, n;
  static const int kinds[9] = {Z_RELATION, Z_RELATION, Z_STATEMENT, Z_GENERIC, Z_INTERFACE, Z_SYMBOLS, Z_LOOP, Z_REGION, Z_RELATION};
  int kind = kinds[which];
  zsetup(); zst = 3; zsz = kind == Z_GENERIC || kind == Z_STATEMENT || kind == Z_SYMBOLS ? 0 : 4;
  if (kind == Z_SYMBOLS) zshape = 4; if (kind == Z_LOOP || kind == Z_REGION) zshape = 2, zsz = 0;
  if (sym_param("mask", 0)) { if (!zchoose(kind, MASK)) { sym_done(); return; } } else zat = -1;
  long live = sym_heap_live();
  void *o = zmake(kind, &A), *c = NULL;
  len = 0;
  switch (kind) {
    case Z_RELATION: for (osl_relation_t *l = o; l; l = l->next) len++; break; case Z_STATEMENT: for (osl_statement_t *l = o; l; l = l->next) len++; break; case Z_GENERIC: for (osl_generic_t *l = o; l; l = l->next) len++; break;
    case Z_INTERFACE: for (osl_interface_t *l = o; l; l = l->next) len++; break; case Z_SYMBOLS: for (osl_symbols_t *l = o; l; l = l->next) len++; break; default: len = 1; }
  int lim = which == P_ROWS ? 3 : len, ask;
  if (which >= P_LOOP1) ask = n = 1;
  else { ask = sym_int("n", -1, which == P_GENERIC || which == P_STATEMENT || which == P_INTERFACE || which == P_SYMBOLS ? 100 : lim); n = ask == -1 || ask > lim ? lim : ask; n = (int)sym_concrete(n); }
  if (which == P_ROWS) { int mn = 99; for (osl_relation_t *l = o; l; l = l->next) if (l->nb_rows < mn) mn = l->nb_rows; sym_assume(ask <= mn); }
  sym_freeze();
  switch (which) {
    case P_PARTS: c = osl_relation_nclone(o, ask); break; case P_ROWS: c = osl_relation_clone_nconstraints(o, ask); break; case P_STATEMENT: c = osl_statement_nclone(o, ask); break;
    case P_GENERIC: c = osl_generic_nclone(o, ask); break; case P_INTERFACE: c = osl_interface_nclone(o, ask); break; case P_SYMBOLS: c = osl_symbols_nclone(o, ask); break;
    case P_LOOP1: c = osl_loop_clone_one(o); break; case P_REGION1: c = osl_region_clone_one(o); break; case P_NODE: c = osl_relation_list_node(o); break; }
  sym_unchanged("copying a part altered the source"); sym_thaw();
  if (which == P_ROWS) {
    zread(kind, c, &B);
    int sv[8], k = 0; for (osl_relation_t *l = o; l; l = l->next) { sv[k++] = l->nb_rows; if (ask != -1) l->nb_rows = n; }
    zread(kind, o, &A); k = 0; for (osl_relation_t *l = o; l; l = l->next) l->nb_rows = sv[k++];
  } else if (which == P_NODE) { osl_relation_list_t *l = c; CHECK(l && !l->next, "a node is one element"); zread(kind, l->elt, &B); zread(kind, o, &A);
  } else {
    zread(kind, c, &B);
    switch (kind) { case Z_RELATION: CUT(osl_relation_t, o) break; case Z_STATEMENT: CUT(osl_statement_t, o) break; case Z_GENERIC: CUT(osl_generic_t, o) break; case Z_INTERFACE: CUT(osl_interface_t, o) break;
      case Z_SYMBOLS: CUT(osl_symbols_t, o) break; case Z_LOOP: CUT(osl_loop_t, o) break; case Z_REGION: CUT(osl_region_t, o) break; }
  }
  CHECK(same(&A, &B), "the partial copy is not the requested beginning");
  // independence
  int ck = which == P_NODE ? Z_RELLIST : kind;
  zread(kind, o, &A); if (c) zscramble(ck, c, &C); zread(kind, o, &B); CHECK(same(&A, &B), "changing the partial copy changed the source");
  if (c) zfree(ck, c);
  zread(kind, o, &B); CHECK(same(&A, &B), "freeing the partial copy changed the source");
  zfree(kind, o); sym_leak_check(live); sym_reach("partial");
}
// ---- P05
static int expected(const Str *a, const Str *b) {      // comments and raw texts are documented as not compared
  if (KIND == Z_COMMENT || KIND == Z_TEXTUAL) return 1;
  static Str x, y; const Str *in[2] = {a, b}; Str *out[2] = {&x, &y};
  for (int k = 0; k < 2; k++) { out[k]->n = in[k]->n; for (int i = 0; i < in[k]->n; i++) { out[k]->f[i] = in[k]->f[i]; if (i > 0 && in[k]->f[i - 1].k == 'k' && in[k]->f[i - 1].v == Z_COMMENT) { out[k]->f[i].v = 0; out[k]->f[i].s = NULL; } } }
  return same(&x, &y);
}
void h_equal(void) {
  int kind = KIND; if (!setup(kind)) return;
  int at = zat, two = (int)sym_param("two", 0);
  long live = sym_heap_live();
  if (!two) zat = -1;
  void *a = zmake(kind, &A); zat = at;
  zshape = (int)sym_param("shape2", zshape); zprec = (int)sym_param("prec2", zprec); zst = (int)sym_param("stmts2", zst); zseed = (int)sym_param("seed2", zseed); zxset = (int)sym_param("xset2", zxset); zsset = (int)sym_param("sset2", zsset);
  void *b = zmake(kind, &B);
  sym_freeze();
  int r = zequal(kind, a, b) != 0, q = zequal(kind, b, a) != 0, s = zequal(kind, b, b) != 0;
  sym_unchanged("comparing altered a structure"); sym_thaw();
  int e = expected(&A, &B);
  CHECK(r == e, "comparison does not tell whether the contents are the same");
  CHECK(q == r, "comparison depends on the order of its arguments"); CHECK(s, "a structure differs from itself");
  zfree(kind, a); zfree(kind, b); sym_leak_check(live); sym_reach(r ? "equal" : "different");
}
// one element alone: those after it do not count
void h_equal_one(void) {
  int kind = KIND; if (!setup(kind)) return;
  int at = zat; long live = sym_heap_live(), r, q; zat = -1;
  void *a = zmake(kind, &A); zat = at; zshape = (int)sym_param("shape2", zshape); zprec = (int)sym_param("prec2", zprec);
  void *b = zmake(kind, &B); if (!a || !b) { sym_done(); return; }
  #define ONE(T, F) { T *x = a, *y = b, *xn = x->next, *yn = y->next; x->next = y->next = NULL; zread(kind, x, &A); zread(kind, y, &B); x->next = xn; y->next = yn; \
    if (sym_pick("rest", 2)) { x->next = NULL; y->next = y; } sym_freeze(); r = F(x, y); q = F(y, x); CHECK(F(x, x) && F(y, y), "an element differs from itself"); CHECK(!F(x, NULL) && !F(NULL, y) && F(NULL, NULL), "an absent element equals a present one"); sym_unchanged("comparing altered a structure"); sym_thaw(); x->next = xn; y->next = yn; } break;
  switch (kind) {
    case Z_RELATION: ONE(osl_relation_t, osl_relation_part_equal) case Z_LOOP: ONE(osl_loop_t, osl_loop_equal_one) case Z_REGION: ONE(osl_region_t, osl_region_equal_one)
    default: sym_done(); return; }
  int e = expected(&A, &B);
  CHECK((r != 0) == e && (q != 0) == e, "comparing two elements does not tell whether their contents are the same");
  zfree(kind, a); zfree(kind, b); sym_leak_check(live); if (r) sym_reach("equal"); else sym_reach("different");
}
void h_equal_null(void) {
  int kind = KIND; zsetup(); zat = -1; zst = 1; long live = sym_heap_live();
  void *a = zmake(kind, &A);
  CHECK(zequal(kind, NULL, NULL), "two absent structures differ");
  if (a && kind != Z_TEXTUAL) CHECK(!zequal(kind, a, NULL) && !zequal(kind, NULL, a), "an absent structure equals a present one");
  zfree(kind, a); sym_leak_check(live); sym_reach("null");
}
// unordered collections: equal exactly when one is a permutation of the other; and lists are compared to their end
static int perm3(const I128 *x, const I128 *y) {
  static const int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  int r = 0; for (int k = 0; k < 6; k++) r |= (x[0] == y[p[k][0]]) & (x[1] == y[p[k][1]]) & (x[2] == y[p[k][2]]);
  return r;
}
static void *coll(int which, const int *v, const int *w) {
  static const char *nm[2] = {"i", "jj"};
  if (which == 0) { osl_arrays_t *a = osl_arrays_malloc(); a->nb_names = 3; a->id = malloc(12); a->names = malloc(24); for (int i = 0; i < 3; i++) { a->id[i] = v[i]; a->names[i] = zdup(nm[w[i]]); } return a; }
  if (which == 1) { osl_extbody_t *e = osl_extbody_malloc(); e->nb_access = 3; e->start = malloc(12); e->length = malloc(12); for (int i = 0; i < 3; i++) { e->start[i] = v[i]; e->length[i] = w[i]; } return e; }
  if (which == 2) { osl_loop_t *l = osl_loop_malloc(); l->iter = zdup("i"); l->nb_stmts = 3; l->stmt_ids = malloc(12); for (int i = 0; i < 3; i++) l->stmt_ids[i] = v[i]; l->directive = 1; return l; }
  osl_loop_t *h = NULL, **p = &h; for (int i = 0; i < 3; i++) { *p = osl_loop_malloc(); (*p)->iter = zdup(nm[w[i]]); (*p)->directive = v[i]; (*p)->nb_stmts = 0; (*p)->stmt_ids = malloc(0); p = &(*p)->next; } return h;
}
void h_equal_perm(void) {
  int which = (int)sym_param("which", 0); static const int kinds[4] = {Z_ARRAYS, Z_EXTBODY, Z_LOOP, Z_LOOP};
  long live = sym_heap_live(); int v[2][3], w[2][3]; I128 x[2][3];
  int lo = (int)sym_param("lo", -2), hi = (int)sym_param("hi", 2);
  for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) {
    v[k][i] = sym_int("v", lo, hi); w[k][i] = 0;
    if (which != 2) w[k][i] = which == 1 ? sym_int("w", lo, hi) : i < 2 ? sym_pick("w", 2) : 0;
    x[k][i] = which == 2 ? v[k][i] : (I128)v[k][i] * 1000 + w[k][i]; }
  void *a = coll(which, v[0], w[0]), *b = coll(which, v[1], w[1]);
  int r = zequal(kinds[which], a, b) != 0, q = zequal(kinds[which], b, a) != 0, e = perm3(x[0], x[1]);
  CHECK(r == e, "an unordered collection is not compared by what it holds"); CHECK(q == r, "comparison depends on the order of its arguments");
  zfree(kinds[which], a); zfree(kinds[which], b); sym_leak_check(live); sym_reach(r ? "equal" : "different");
}
// extension lists: any order of any subset of four kinds
void h_equal_order(void) {
  long live = sym_heap_live(); zsetup(); static const int ks[4] = {Z_ARRAYS, Z_BODY, Z_COORD, Z_STRINGS}; osl_generic_t *l[2]; int has[2][4], mod[2][4];
  for (int k = 0; k < 2; k++) {
    osl_generic_t **p = &l[k]; *p = NULL; int used[4] = {0};
    for (int i = 0; i < 4; i++) has[k][i] = mod[k][i] = 0;
    int n = 1 + sym_pick("n", 3);
    for (int i = 0; i < n; i++) {
      int c = sym_pick("kind", 4); if (used[c]) { sym_done(); return; } used[c] = 1; has[k][c] = 1;
      mod[k][c] = c < 2 && k ? sym_pick("mod", 2) : 0;
      *p = osl_generic_malloc(); (*p)->interface = zinterface(ks[c]); zseed = mod[k][c]; zat = -1; (*p)->data = zmake(ks[c], &A); p = &(*p)->next; } }
  int e = 1; for (int i = 0; i < 4; i++) e &= (has[0][i] == has[1][i]) & (mod[0][i] == mod[1][i]);
  int r = osl_generic_equal(l[0], l[1]) != 0, q = osl_generic_equal(l[1], l[0]) != 0;
  CHECK(r == e, "extension lists are not compared by what they hold"); CHECK(q == r, "comparison depends on the order of its arguments");
  osl_generic_free(l[0]); osl_generic_free(l[1]); sym_leak_check(live); sym_reach(r ? "equal" : "different");
}
// ---- P06
static char *textof(FILE *f) { return sym_fmem_text(f); }
void h_life(void) {
  int kind = KIND; if (!setup(kind)) return;
  long live = sym_heap_live(); int steps = (int)sym_param("steps", 2);
  void *o = zmake(kind, &A);
  for (int i = 0; i < steps; i++) {
    switch (sym_pick("op", 5)) {
      case 0: if (kind != Z_VECTOR) { void *c = zclone(kind, o); zfree(kind, o); o = c; } break;
      case 1: if (kind != Z_VECTOR) { void *c = zclone(kind, o); zequal(kind, c, o); zfree(kind, c); } break;
      case 2: if (kind < Z_EXT) { char *s = zsprint(kind, o); free(s); } else if (kind == Z_SCOP) { FILE *f = sym_fmem_new(); osl_scop_print(f, o); sym_fmem_close(f); } else if (kind == Z_STATEMENT) { FILE *f = sym_fmem_new(); osl_statement_print(f, o); sym_fmem_close(f); } break;
      case 3: { FILE *f = sym_fmem_new(); zidump(kind, f, o, sym_pick("level", 3)); sym_fmem_close(f); break; }
      case 4: zequal(kind, o, NULL); zequal(kind, NULL, o); break; } }
  zfree(kind, o); sym_leak_check(live); sym_reach("released");
}
// absent structures: every operation that may receive one
void h_absent(void) {
  int kind = KIND; zsetup(); long live = sym_heap_live();
  void *c = NULL; char *s = NULL;
  switch (sym_pick("op", 7)) {
    case 0: if (kind != Z_VECTOR) c = zclone(kind, NULL); if (c) zfree(kind, c); break;
    case 1: zfree(kind, NULL); break;
    case 2: { FILE *f = sym_fmem_new(); zidump(kind, f, NULL, sym_pick("level", 3)); sym_fmem_close(f); break; }
    case 3: if (kind < Z_EXT) { s = zsprint(kind, NULL); free(s); } break;
    case 4: zequal(kind, NULL, NULL); break;
    case 6: { FILE *f = sym_fmem_new(); zdump(kind, f, NULL); sym_fmem_close(f); break; }
    case 5: if (kind < Z_EXT && kind != Z_STRINGS && kind != Z_RELATION) { char *n = NULL; c = zsread(kind, &n); if (c) zfree(kind, c); } break; }
  sym_leak_check(live); sym_reach("absent");
}
// what the allocation functions return is whole: it can be compared, copied, printed, dumped and released
static void *zfresh(int kind) {
  switch (kind) { case Z_RELLIST: return osl_relation_list_malloc(); case Z_VECTOR: return osl_vector_malloc(sym_pick("size", 3)); case Z_GENERIC: return osl_generic_malloc(); case Z_INTERFACE: return osl_interface_malloc(); case Z_STATEMENT: return osl_statement_malloc(); case Z_SCOP: return osl_scop_malloc(); }
  osl_interface_t *f = zinterface(kind); void *r = f->malloc(); osl_interface_free(f); return r;
}
void h_fresh(void) {
  int kind = KIND, op = sym_pick("op", 5); zsetup(); long live = sym_heap_live();
  void *a = zfresh(kind), *b = NULL; CHECK(a != NULL, "nothing was allocated");
  if (op == 1 && kind != Z_VECTOR && kind != Z_GENERIC && kind != Z_INTERFACE) { b = zclone(kind, a); CHECK(b != NULL, "no copy"); CHECK(zequal(kind, a, b) && zequal(kind, b, a), "a copy differs"); }
  if (op == 2) { FILE *f = sym_fmem_new(); zidump(kind, f, a, sym_pick("level", 3)); sym_fmem_close(f); }
  if (op == 3 && kind < Z_EXT && kind != Z_RELATION) { char *s = zsprint(kind, a); free(s); }
  if (op == 4) { b = zfresh(kind); if (kind != Z_VECTOR && kind != Z_GENERIC) CHECK(zequal(kind, a, b), "two new structures differ"); }
  zfree(kind, a); zfree(kind, b); sym_leak_check(live); sym_reach("fresh");
}
// ---- P23: observers
static void twice(int kind, void *o0, void *o1, int op) {
  char *t[2]; FILE *f[2] = {NULL, NULL}; long v[2] = {0, 0}; int a[5], b[5];
  for (int k = 0; k < 2; k++) {
    void *o = k ? o1 : o0; t[k] = NULL; for (int i = 0; i < 5; i++) a[i] = OSL_UNDEFINED;
    if (op == 0) { f[k] = sym_fmem_new(); zidump(kind, f[k], o, 1); }
    else if (op == 11) { f[k] = sym_fmem_new(); if (k) zidump(kind, f[k], o, 0); else zdump(kind, f[k], o); }
    else if (op == 1 && kind < Z_EXT) t[k] = zsprint(kind, o);
    else if (op == 2) v[k] = zequal(kind, o, o);
    else switch (kind) {
      case Z_STRINGS: if (op == 3) { f[k] = sym_fmem_new(); osl_strings_print(f[k], o); } else if (op == 4) v[k] = (long)osl_strings_size(o); else if (op == 5) v[k] = (long)osl_strings_find(o, "j"); break;
      case Z_BODY: if (op == 3) { f[k] = sym_fmem_new(); osl_body_print(f[k], o); } else if (op == 4) { f[k] = sym_fmem_new(); osl_body_print_scoplib(f[k], o); } break;
      case Z_DEP: if (op == 3) { f[k] = sym_fmem_new(); osl_dependence_print(f[k], o); } else if (op == 4) v[k] = osl_nb_dependences(o); break;
      case Z_RELATION: if (op == 3) { f[k] = sym_fmem_new(); osl_relation_print(f[k], o); } else if (op == 4) v[k] = osl_relation_nb_components(o); else if (op == 5) { osl_relation_get_attributes(o, &a[0], &a[1], &a[2], &a[3], &a[4]); } else if (op == 6) v[k] = osl_relation_is_access(o); else if (op == 7) { f[k] = sym_fmem_new(); osl_relation_pprint_scoplib(f[k], o, NULL, 0, 0); } else if (op == 8) v[k] = osl_relation_integrity_check(o, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED); break;
      case Z_RELLIST: if (op == 3) { f[k] = sym_fmem_new(); osl_relation_list_print(f[k], o); } else if (op == 4) v[k] = (long)osl_relation_list_count(o); else if (op == 5) osl_relation_list_get_attributes(o, &a[0], &a[1], &a[2], &a[3], &a[4]); else if (op == 6) v[k] = osl_relation_list_integrity_check(o, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED); else if (op == 7) { f[k] = sym_fmem_new(); osl_relation_list_pprint_access_array_scoplib(f[k], o, NULL, 0); } break;
      case Z_GENERIC: if (op == 3) { f[k] = sym_fmem_new(); osl_generic_print(f[k], o); } else if (op == 4) t[k] = osl_generic_sprint(o); else if (op == 5) v[k] = osl_generic_number(o); else if (op == 6) v[k] = osl_generic_count(o); else if (op == 7) { f[k] = sym_fmem_new(); osl_generic_print_options_scoplib(f[k], o); } else if (op == 8) v[k] = (long)osl_generic_lookup(o, "body"); break;
      case Z_INTERFACE: if (op == 3) v[k] = osl_interface_number(o); else if (op == 4) v[k] = (long)osl_interface_lookup(o, "j"); break;
      case Z_STATEMENT: if (op == 3) { f[k] = sym_fmem_new(); osl_statement_print(f[k], o); } else if (op == 4) v[k] = osl_statement_number(o); else if (op == 5) { osl_statement_get_attributes(o, &a[0], &a[1], &a[2], &a[3], &a[4]); } else if (op == 6) { f[k] = sym_fmem_new(); osl_statement_pprint_scoplib(f[k], o, NULL); } else if (op == 7) v[k] = (long)osl_statement_get_body(o); else if (op == 8) v[k] = osl_statement_get_nb_iterators(o); else if (op == 9) v[k] = osl_statement_integrity_check(o, OSL_UNDEFINED); break;
      case Z_SCOP: if (op == 3) { f[k] = sym_fmem_new(); osl_scop_print(f[k], o); } else if (op == 4) v[k] = (long)osl_scop_number(o); else if (op == 5) osl_scop_get_attributes(o, &a[0], &a[1], &a[2], &a[3], &a[4]); else if (op == 6) { f[k] = sym_fmem_new(); osl_scop_print_scoplib(f[k], o); } else if (op == 7) v[k] = osl_scop_integrity_check(o); else if (op == 8) { sym_exit_ok(1); v[k] = osl_scop_check_compatible_scoplib(o); sym_exit_ok(0); } else if (op == 9) v[k] = osl_scop_get_nb_parameters(o); else if (op == 10) { osl_names_t *n = osl_scop_names(o); osl_names_free(n); } break;
      case Z_ARRAYS: if (op == 3) v[k] = (long)osl_arrays_get_index_from_id(o, 7); else if (op == 4) v[k] = (long)osl_arrays_get_index_from_name(o, "j"); else if (op == 5) { osl_strings_t *n = osl_arrays_to_strings(o); osl_strings_free(n); } break;
      case Z_LOOP: if (op == 3) v[k] = osl_loop_count(o); break;
      case Z_REGION: if (op == 3) v[k] = (long)osl_region_count(o); break;
      case Z_SYMBOLS: if (op == 3) v[k] = osl_symbols_get_nb_symbols(o); break; }
    if (k == 0) for (int i = 0; i < 5; i++) b[i] = a[i]; else for (int i = 0; i < 5; i++) CHECK(a[i] == b[i], "asking twice gives two answers"); }
  CHECK(v[0] == v[1], "asking twice gives two answers");
  if (f[0]) { CHECK(same_text(textof(f[0]), textof(f[1])), "the text changes from one time to the next"); }
  if (t[0] || t[1]) { CHECK(t[0] && t[1] && same_text(t[0], t[1]), "the text changes from one time to the next"); }
  if (f[0]) { sym_fmem_close(f[0]); sym_fmem_close(f[1]); }
  free(t[0]); free(t[1]);
}
void h_observe(void) {
  int kind = KIND; if (!setup(kind)) return;
  int op = (int)sym_param("op", 0);
  void *o = zmake(kind, &A); zread(kind, o, &A);
  long live = sym_heap_live();
  sym_freeze();
  if (kind == Z_SCOP && op == 6) { sym_exit_ok(1); int ok = osl_scop_check_compatible_scoplib(o); sym_exit_ok(0); if (!ok) { sym_done(); return; } }
  if (kind == Z_STATEMENT && (op == 6 || op == 8)) { int ok = o != NULL; for (osl_statement_t *q = o; q; q = q->next) ok &= q->domain && q->scattering; if (!ok) { sym_done(); return; } }
  twice(kind, o, o, op);
  sym_unchanged("observing altered the structure"); sym_thaw();
  zread(kind, o, &B); CHECK(same(&A, &B), "observing altered the structure");
  sym_leak_check(live); sym_reach("observed");
}
// what was observed before does not matter: an object observed, then changed in place, shows what another with the same contents shows
void h_history(void) {
  int kind = KIND; if (!setup(kind)) return;
  int op = (int)sym_param("op", 0); long live = sym_heap_live(); static Str C; void *c;
  void *o = zmake(kind, &A); zat = -1; void *b = zmake(kind, &B); zread(kind, o, &A); zread(kind, b, &B);
  if (op == 20) { c = zclone(kind, b); zfree(kind, c); } else if (op == 21) { zequal(kind, b, o); zequal(kind, o, b); } else twice(kind, b, b, op);
  sym_assume(A.n == B.n);
  zset(kind, b, &A, &C); zread(kind, b, &C); CHECK(same(&A, &C), "HARNESS: the object was not changed into the other");
  if (op == 20) { c = zclone(kind, b); zread(kind, c, &B); CHECK(same(&A, &B), "the copy has contents of the past"); zfree(kind, c); }
  else if (op == 21) CHECK(zequal(kind, b, o) && zequal(kind, o, b), "objects with the same contents differ after a change in place");
  else twice(kind, b, o, op);
  zfree(kind, b); zfree(kind, o); sym_leak_check(live); sym_reach("history");
}
// text into a string and text into a stream: the same, blank and comment lines aside
static char norm[2][6000];
static void normal(int k, const char *s) {
  char *d = norm[k];
  while (*s) { if (*s == '\n') { s++; continue; } int keep = *s != '#'; while (*s && *s != '\n') { if (keep) *d++ = *s; s++; } if (keep) *d++ = '\n'; }
  *d = 0;
}
void h_same_text(void) {
  int kind = KIND; if (!setup(kind)) return;
  long live = sym_heap_live(); void *o = zmake(kind, &A); FILE *f = sym_fmem_new(); char *s = NULL;
  switch (kind) {
    case Z_STRINGS: s = osl_strings_sprint(o); osl_strings_print(f, o); break; case Z_BODY: s = osl_body_sprint(o); osl_body_print(f, o); break; case Z_DEP: s = osl_dependence_sprint(o); osl_dependence_print(f, o); break;
    case Z_RELATION: s = osl_relation_sprint(o); osl_relation_print(f, o); break; case Z_GENERIC: s = osl_generic_sprint(o); osl_generic_print(f, o); break; }
  CHECK(s != NULL, "no text"); normal(0, s); normal(1, textof(f));
  CHECK(same_text(norm[0], norm[1]), "the text in a string differs from the text in a stream"); sym_fmem_close(f); free(s); zfree(kind, o); sym_leak_check(live); sym_reach("same text");
}
