// P13: eliminating unions. The reference is the original rearranged with plain C structures: one statement per pair of parts.
#include "zoo.h"
static Str A, B, C, D;
#define MX 64
static osl_statement_t est[MX]; static osl_relation_t edom[MX], esc[MX]; static osl_scop_t esp[24]; static int ne;
static osl_statement_t *expand(osl_statement_t *s, osl_statement_t *rest) {   // the statements expected for one statement, followed by others
  osl_statement_t *head = rest, **p = &head;
  osl_relation_t *d = s->domain;
  for (int i = 0; i == 0 || d; i++, d = d ? d->next : NULL) {
    osl_relation_t *c = s->scattering;
    for (int j = 0; j == 0 || c; j++, c = c ? c->next : NULL) {
      osl_statement_t *e = &est[ne]; *e = *s; e->next = NULL;
      if (d) { edom[ne] = *d; edom[ne].next = NULL; e->domain = &edom[ne]; }
      if (c) { esc[ne] = *c; esc[ne].next = NULL; e->scattering = &esc[ne]; }
      ne++; *p = e; p = &e->next;
      if (c && !c->next) break; }
    if (d && !d->next) break; }
  *p = rest;
  return head;
}
static int setup(int kind) {
  zsetup(); zun = (int)sym_param("unions", 3); zwf = 1; zat = -1;
  int mask = (int)sym_param("mask", 0), at = (int)sym_param("at", -1);
  if (mask) { int u = zun; zun = 0; (void)u; if (!zchoose(kind, mask)) { sym_done(); return 0; } } else if (at >= 0) zat = at;
  return 1;
}
static void rest_of(int kind, void *o, void *r, long live) {
  zread(kind, r, &B);
  zread(kind, o, &D); CHECK(same(&A, &D), "eliminating unions altered the original");
  if (sym_pick("dir", 2)) { zscramble(kind, r, &C); zread(kind, o, &D); CHECK(same(&A, &D), "changing the result changes the original"); zfree(kind, r); zread(kind, o, &D); CHECK(same(&A, &D), "releasing the result changes the original"); zfree(kind, o); }
  else { zscramble(kind, o, &C); zread(kind, r, &D); CHECK(same(&B, &D), "changing the original changes the result"); zfree(kind, o); zread(kind, r, &D); CHECK(same(&B, &D), "releasing the original changes the result"); zfree(kind, r); }
  sym_leak_check(live);
}
void h_unions(void) {
  if (!setup(Z_SCOP)) return;
  long live = sym_heap_live();
  osl_scop_t *o = zmake(Z_SCOP, &A);
  zread(Z_SCOP, o, &A);
  sym_freeze(); osl_scop_t *r = osl_scop_remove_unions(o); sym_unchanged("eliminating unions altered the original"); sym_thaw();
  CHECK((r == NULL) == (o == NULL), "scops appear or disappear");
  int k = 0; osl_scop_t *x = NULL, **px = &x;
  for (osl_scop_t *s = o; s; s = s->next, k++) {
    esp[k] = *s; esp[k].next = NULL; esp[k].statement = NULL; osl_statement_t **ps = &esp[k].statement;
    for (osl_statement_t *t = s->statement; t; t = t->next) { *ps = expand(t, NULL); while (*ps) ps = &(*ps)->next; }
    *px = &esp[k]; px = &esp[k].next; }
  zread(Z_SCOP, x, &B); zread(Z_SCOP, r, &C);
  CHECK(same(&B, &C), "the result is not one statement for each domain part and scattering part, domain part first");
  rest_of(Z_SCOP, o, r, live);
  sym_reach("eliminated");
}
void h_union_statement(void) {
  if (!setup(Z_STATEMENT)) return;
  long live = sym_heap_live();
  osl_statement_t *o = zmake(Z_STATEMENT, &A);
  zread(Z_STATEMENT, o, &A);
  sym_freeze(); osl_statement_t *r = osl_statement_remove_unions(o); sym_unchanged("eliminating unions altered the original"); sym_thaw();
  zread(Z_STATEMENT, o ? expand(o, NULL) : NULL, &B); zread(Z_STATEMENT, r, &C);
  CHECK(same(&B, &C), "the result is not one statement for each domain part and scattering part, domain part first");
  rest_of(Z_STATEMENT, o, r, live);
  sym_reach("eliminated");
}
