// P21: building extensions piece by piece, and looking things up in them.
#include "zoo.h"
static Str A, B, C, D;
#define NMAX 24
static char nmbuf[64][4]; static int nnm;
static char *aname(void) { char *b = nmbuf[nnm++]; int l = sym_pick("nl", 3); for (int i = 0; i < l; i++) b[i] = (char)sym_byte("b"); b[l] = 0; for (int i = 0; i < l; i++) sym_assume(b[i] != 0); return b; }
static int eq(const char *a, const char *b) { int bad = 0; for (int i = 0;; i++) { bad |= a[i] != b[i]; if (!a[i] || !b[i]) return !bad; } }
// ---- arrays
static int aid[NMAX]; static const char *anm[NMAX]; static int an;
static void acheck(osl_arrays_t *a) {
  CHECK(a->nb_names == an, "the number of arrays is not the number added");
  for (int i = 0; i < an; i++) CHECK(a->id[i] == aid[i] && eq(a->names[i], anm[i]), "an array is not the one added at its place");
}
void h_arrays(void) {
  int n = (int)sym_param("n", 3), pre = (int)sym_param("pre", 0); long live = sym_heap_live();
  osl_arrays_t *a = osl_arrays_malloc(); acheck(a);
  static const char *const fixed[3] = {"A", "xy", ""};
  for (int i = 0; i < pre; i++) { CHECK(osl_arrays_add(a, i * 7 - 20, fixed[i % 3]) == an + 1, "adding does not return the number of arrays"); aid[an] = i * 7 - 20; anm[an++] = fixed[i % 3]; }
  acheck(a);
  for (int i = 0; i < n; i++) {
    int id = sym_int("id", INT_MIN, INT_MAX); char *nm = aname();
    sym_freeze(); CHECK(osl_arrays_add(NULL, id, nm) == -1 && osl_arrays_add(a, id, NULL) == -1, "adding nothing is accepted"); sym_unchanged("a refused addition altered the arrays"); sym_thaw();
    char given[4]; memcpy(given, nm, 4);
    int r = osl_arrays_add(a, id, given); given[0] = '!'; aid[an] = id; anm[an++] = nm;
    CHECK(r == an, "adding does not return the number of arrays"); acheck(a); }
  sym_freeze();
  int q = sym_int("q", INT_MIN, INT_MAX), w = an; for (int i = an - 1; i >= 0; i--) if (aid[i] == q) w = i;
  CHECK(osl_arrays_get_index_from_id(a, q) == (size_t)w, "the index of an identifier is not that of its first array");
  char *m = aname(); int v = an; for (int i = an - 1; i >= 0; i--) if (eq(anm[i], m)) v = i;
  CHECK(osl_arrays_get_index_from_name(a, m) == (size_t)v, "the index of a name is not that of its first array");
  CHECK(osl_arrays_get_index_from_id(NULL, q) == 0 && osl_arrays_get_index_from_name(NULL, m) == 0, "nothing has arrays");
  sym_unchanged("looking up altered the arrays"); sym_thaw();
  osl_arrays_free(a); sym_leak_check(live); sym_reach("arrays");
}
void h_arrays_names(void) {
  int n = (int)sym_param("n", 3), lo = (int)sym_param("lo", -2), hi = (int)sym_param("hi", 5), mx = 0; long live = sym_heap_live();
  osl_arrays_t *a = osl_arrays_malloc(); static const char *const fixed[3] = {"A", "xy", "D2"};
  for (int i = 0; i < n; i++) { aid[i] = (int)sym_concrete(sym_int("id", lo, hi)); anm[i] = i ? fixed[i % 3] : aname(); osl_arrays_add(a, aid[i], anm[i]); if (aid[i] > mx) mx = aid[i]; }
  sym_freeze(); osl_strings_t *s = osl_arrays_to_strings(a); sym_unchanged("converting altered the arrays"); sym_thaw();
  CHECK(s != NULL && (int)osl_strings_size(s) == mx, "the number of names is not the largest identifier");
  for (int k = 1; k <= mx; k++) { int c = 0, ok = 0; for (int i = 0; i < n; i++) if (aid[i] == k) { c = 1; ok |= eq(s->string[k - 1], anm[i]); } CHECK(s->string[k - 1] != NULL && (!c || ok), "a name is not at the place of its identifier"); }
  CHECK(osl_arrays_to_strings(NULL) == NULL, "names of nothing");
  osl_arrays_free(a); for (int k = 1; k <= mx; k++) for (int i = 0; i < n; i++) if (aid[i] == k) { CHECK(s->string[k - 1][0] == anm[i][0] || n > 1, "a name does not outlive the arrays"); break; }
  osl_strings_free(s); sym_leak_check(live); sym_reach("names");
}
// ---- lists: the contents after an addition are those before followed by those added
#define SETUP(kind) zsetup(); zat = -1; if (sym_param("mask", FI) && !zchoose(kind, (int)sym_param("mask", FI))) { sym_done(); return; }
static void joined(const Str *a, const Str *b, int kind) {      // D: one object with the fields of both (an element count leads each list)
  D.n = 0; int s = a->n ? 1 : 0; D.f[D.n].k = 'n'; D.f[D.n].s = NULL; D.f[D.n++].v = (a->n ? a->f[0].v : 0) + (b->n ? b->f[0].v : 0);
  (void)kind; for (int i = s; i < a->n; i++) D.f[D.n++] = a->f[i];
  for (int i = b->n ? 1 : 0; i < b->n; i++) D.f[D.n++] = b->f[i];
}
void h_list_add(void) {
  static const int kinds[5] = {Z_LOOP, Z_SYMBOLS, Z_DEP, Z_STATEMENT, Z_SCOP}; int which = (int)sym_param("which", 0), kind = kinds[which], adds = (int)sym_param("adds", 2);
  SETUP(kind); long live = sym_heap_live(); int at = zat, hit = sym_pick("hit", adds);
  void *l = NULL, *now = NULL; int cnt = 0; A.n = 0;
  static void *seen[64];
  for (int i = 0; i < adds; i++) {
    void *o = NULL; B.n = 0;
    if (i == hit) zat = at; else zat = -1;
    if (i == hit || !sym_pick("null", 2)) o = zmake(kind, &B);
    if (i != hit) zsz = 0;
    switch (which) {
      case 0: osl_loop_add(o, (osl_loop_t **)&l); break; case 1: osl_symbols_add((osl_symbols_t **)&l, o); break; case 2: osl_dependence_add((osl_dependence_t **)&l, (osl_dependence_t **)&now, o); break;
      case 3: osl_statement_add((osl_statement_t **)&l, o); break; case 4: osl_scop_add((osl_scop_t **)&l, o); break; }
    int added = 0;
#define WALK_(T) for (T *p = o; p; p = p->next) seen[cnt + added++] = p; { T *p = l; for (int k = 0; k < cnt + added; k++, p = p->next) { CHECK(p != NULL, "an element is lost"); CHECK(p == (T *)seen[k], "an addition does not keep the order"); } CHECK(p == NULL, "elements appear"); }
    switch (which) { case 0: WALK_(osl_loop_t) break; case 1: WALK_(osl_symbols_t) break; case 2: WALK_(osl_dependence_t) break; case 3: WALK_(osl_statement_t) break; case 4: WALK_(osl_scop_t) break; }
    cnt += added;
    if (which == 2) CHECK(now == (cnt ? seen[cnt - 1] : NULL), "the end of the list is not the last element");
    joined(&A, &B, kind); if (l) { zread(kind, l, &C); CHECK(same(&C, &D), "an addition altered an element"); }
    A = D;
    sym_freeze(); int r = -1;
    switch (which) { case 0: r = osl_loop_count(l); break; case 1: r = osl_symbols_get_nb_symbols(l); break; case 2: r = osl_nb_dependences(l); break; case 3: r = osl_statement_number(l); break; case 4: r = (int)osl_scop_number(l); break; }
    CHECK(r == cnt, "the count is not the number of elements"); sym_unchanged("counting altered the list"); sym_thaw(); }
  if (l) zfree(kind, l);
  sym_leak_check(live); sym_reach("added");
}
void h_extbody(void) {
  SETUP(Z_EXTBODY); int adds = (int)sym_param("adds", 3); long live = sym_heap_live();
  osl_extbody_t *e = sym_pick("fresh", 2) ? (zat = -1, A.n = 0, osl_extbody_malloc()) : zmake(Z_EXTBODY, &A);
  zread(Z_EXTBODY, e, &A); int n0 = (int)e->nb_access;
  for (int i = 0; i < adds; i++) {
    int s = sym_int("st", INT_MIN, INT_MAX), l = sym_int("ln", INT_MIN, INT_MAX);
    zread(Z_EXTBODY, e, &A); osl_extbody_add(e, s, l); zread(Z_EXTBODY, e, &B);
    D.n = 0; D.f[D.n] = A.f[0]; D.f[D.n++].v += 1; int k = 1; for (; k <= 2 * (n0 + i); k++) D.f[D.n++] = A.f[k];
    D.f[D.n] = A.f[0]; D.f[D.n].k = 'i'; D.f[D.n++].v = s; D.f[D.n] = A.f[0]; D.f[D.n].k = 'i'; D.f[D.n++].v = l;
    for (; k < A.n; k++) D.f[D.n++] = A.f[k];
    CHECK(same(&D, &B), "adding an access does not append just it"); }
  CHECK((int)e->nb_access == n0 + adds, "the number of accesses is not the number added");
  osl_extbody_free(e); sym_leak_check(live); sym_reach("added");
}
void h_unroll(void) {
  SETUP(Z_PLUTO); long live = sym_heap_live();
  osl_pluto_unroll_t *u = sym_pick("fresh", 2) ? osl_pluto_unroll_malloc() : zmake(Z_PLUTO, &A), *nx = u->next; Str *r = &A; if (nx) zread(Z_PLUTO, nx, r);
  char *old = u->iter, keep[64] = ""; if (old) { int i = 0; for (; old[i] && i < 60; i++) keep[i] = old[i]; keep[i] = 0; }
  char *nm = sym_pick("name", 2) ? aname() : NULL; int jam = sym_pick("jam", 2); unsigned f = (unsigned)sym_int("f", INT_MIN, INT_MAX);
  osl_pluto_unroll_fill(u, nm, jam, f);
  CHECK(nm ? u->iter != NULL && u->iter != nm && eq(u->iter, nm) : old ? eq(u->iter, keep) : u->iter == NULL, "the iterator is not the given one");
  CHECK(u->jam == jam && u->factor == f, "the unrolling is not the given one"); CHECK(u->next == nx, "filling a directive altered the following ones"); if (nx) { zread(Z_PLUTO, nx, &B); CHECK(same(r, &B), "filling a directive altered the following ones"); }
  osl_pluto_unroll_fill(NULL, nm, jam, f);
  osl_pluto_unroll_free(u); sym_leak_check(live); sym_reach("filled");
}
// ---- irregular
void h_irregular(void) {
  int op = (int)sym_param("op", 0); SETUP(Z_IRREG); long live = sym_heap_live(); 
  osl_irregular_t *g = sym_pick("fresh", 2) ? osl_irregular_malloc() : zmake(Z_IRREG, &A), e, *r; zread(Z_IRREG, g, &A);
  int m = sym_pick("m", 4), pr[3]; char *it[3], *body = aname(); for (int i = 0; i < m; i++) { if (op < 2) it[i] = aname(); else pr[i] = sym_int("p", INT_MIN, INT_MAX); }
  sym_freeze(); r = op == 0 ? osl_irregular_add_control(g, it, m, body) : op == 1 ? osl_irregular_add_exit(g, it, m, body) : osl_irregular_add_predicates(g, pr, m); sym_unchanged("building altered the source"); sym_thaw();
  CHECK(r != NULL && r != g, "nothing is built");
  // the expected value, from plain arrays
  static int nit[32], npr[32], *prs[32]; static char **its[32], *bo[32]; int at = op == 0 ? g->nb_control : op == 1 ? g->nb_control + g->nb_exit : -1, q = 0;
  e = *g;
  for (int i = 0; i <= g->nb_control + g->nb_exit; i++) { if (i == at) { nit[q] = m; its[q] = it; bo[q++] = body; } if (i < g->nb_control + g->nb_exit) { nit[q] = g->nb_iterators[i]; its[q] = g->iterators[i]; bo[q++] = g->body[i]; } }
  for (int i = 0; i < g->nb_statements; i++) { npr[i] = g->nb_predicates[i]; prs[i] = g->predicates[i]; }
  if (op == 0) e.nb_control++; if (op == 1) e.nb_exit++; if (op == 2) { npr[g->nb_statements] = m; prs[g->nb_statements] = pr; e.nb_statements++; }
  e.nb_iterators = nit; e.iterators = its; e.body = bo; e.nb_predicates = npr; e.predicates = prs;
  zread(Z_IRREG, &e, &D); zread(Z_IRREG, r, &B);
  CHECK(same(&D, &B), op == 0 ? "adding a control predicate does not add just it after the controls" : op == 1 ? "adding an exit predicate does not append just it" : "adding the predicates of a statement does not append just them");
  if (sym_pick("dir", 2)) { zscramble(Z_IRREG, r, &C); zread(Z_IRREG, g, &B); CHECK(same(&A, &B), "changing the result changes the source"); osl_irregular_free(r); zread(Z_IRREG, g, &B); CHECK(same(&A, &B), "releasing the result changes the source"); osl_irregular_free(g); }
  else { zread(Z_IRREG, r, &D); osl_irregular_free(g); zread(Z_IRREG, r, &B); CHECK(same(&D, &B), "releasing the source changes the result"); osl_irregular_free(r); }
  sym_leak_check(live); sym_reach("built");
}
// ---- texts of regions and annotations
void h_text_append(void) {
  int an_ = (int)sym_param("annotation", 0), kind = an_ ? Z_ANNOT : Z_REGION, adds = (int)sym_param("adds", 2); SETUP(kind); long live = sym_heap_live();
  void *o = sym_pick("fresh", 2) ? an_ ? (void *)osl_annotation_malloc() : (void *)osl_region_malloc() : zmake(kind, &A);
  static struct { int n, t[32]; const char *l[32]; } w[4]; osl_region_t *r = o; osl_annotation_t *a = o; int nt = an_ ? 2 : 4;
#define TX(k, F) (an_ ? ((k) ? a->suffix.F : a->prefix.F) : (k) == 0 ? r->prefix.F : (k) == 1 ? r->suffix.F : (k) == 2 ? r->prelude.F : r->postlude.F)
  for (int k = 0; k < nt; k++) { w[k].n = (int)TX(k, count); for (int i = 0; i < w[k].n; i++) { w[k].t[i] = TX(k, types)[i]; w[k].l[i] = TX(k, lines)[i]; } }
  osl_region_t *nx = an_ ? NULL : r->next; if (nx) zread(kind, nx, &A); int loc = an_ ? 0 : r->location;
  for (int s = 0; s < adds; s++) {
    int k = sym_pick("text", nt), ty = sym_int("ty", INT_MIN, INT_MAX); char *l = zdup(aname());
    if (an_) { if (k) osl_annotation_append_suffix(a, ty, l); else osl_annotation_append_prefix(a, ty, l); }
    else if (k == 0) osl_region_append_prefix(r, ty, l); else if (k == 1) osl_region_append_suffix(r, ty, l); else if (k == 2) osl_region_append_prelude(r, ty, l); else osl_region_append_postlude(r, ty, l);
    w[k].t[w[k].n] = ty; w[k].l[w[k].n++] = l;
    for (int j = 0; j < nt; j++) { CHECK((int)TX(j, count) == w[j].n, "the number of lines is not the number appended"); for (int i = 0; i < w[j].n; i++) CHECK(TX(j, types)[i] == w[j].t[i] && TX(j, lines)[i] == w[j].l[i], "a line is not the one appended at its place"); }
    if (!an_) CHECK(r->next == nx && r->location == loc, "appending a line altered something else"); if (nx) { zread(kind, nx, &B); CHECK(same(&A, &B), "appending a line altered another region"); } }
  if (!an_) { int c = 0; for (osl_region_t *p = r; p; p = p->next) c++; CHECK((int)osl_region_count(r) == c && osl_region_count(NULL) == 0, "the count is not the number of regions"); }
  zfree(kind, o); sym_leak_check(live); sym_reach("appended");
}
// the body of a statement: its body extension, else the body inside its extended body, wherever they stand among the extensions
void h_statement_body(void) {
  zsetup(); zat = -1; long live = sym_heap_live(); int n = (int)sym_param("n", 3), has[4] = {0};
  static const int ks[4] = {Z_BODY, Z_EXTBODY, Z_COMMENT, Z_ARRAYS};
  osl_statement_t *s = osl_statement_malloc(); osl_generic_t **e = &s->extension; void *body = NULL, *in = NULL;
  for (int i = 0; i < n; i++) {
    int k = sym_pick("kind", 5); if (k == 4) continue; if (has[k]) { sym_done(); return; } has[k] = 1;
    *e = osl_generic_malloc(); (*e)->interface = zinterface(ks[k]); (*e)->data = zmake(ks[k], &A);
    if (k == 0) body = (*e)->data; if (k == 1) { osl_extbody_t *x = (*e)->data; if (sym_pick("empty", 2)) { osl_body_free(x->body); x->body = NULL; } in = x->body; }
    e = &(*e)->next; }
  sym_freeze(); osl_body_t *b = osl_statement_get_body(s); CHECK(osl_statement_get_body(NULL) == NULL, "nothing has a body"); sym_unchanged("looking up altered the statement"); sym_thaw();
  CHECK((void *)b == (body ? body : in), "not the body of the statement");
  osl_statement_free(s); sym_leak_check(live); sym_reach(b ? "body" : "none");
}
