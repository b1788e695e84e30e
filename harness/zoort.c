// P03: text form and back.
#include "zoo.h"
static Str A, B;
static void wrapped(int kind, void *o) {
  // inside an extension part, between other extensions
  osl_generic_t *g = osl_generic_malloc(), *n = osl_generic_malloc(), *c = osl_generic_malloc();
  osl_interface_t *reg = osl_interface_get_default_registry();
  if (kind == Z_IRREG) osl_interface_add(&reg, osl_irregular_interface());
  n->interface = osl_null_interface(); n->data = osl_null_malloc();
  g->interface = zinterface(kind); g->data = o;
  c->interface = osl_scatnames_interface(); osl_scatnames_t *sn = osl_scatnames_malloc(); sn->names = osl_strings_generate("t", 2); c->data = sn;
  int before = kind == Z_NULL ? 0 : 1, after = kind == Z_SCATNAMES ? 0 : 1;
  if (before) n->next = g; else osl_generic_free(n);
  if (after) g->next = c; else osl_generic_free(c);
  char *s = osl_generic_sprint(before ? n : g), *q = s;
  osl_generic_t *r = osl_generic_sread(&q, reg), *e = r;
  CHECK(*q == 0, "the text of the extensions was not read to its end");
  if (before) { CHECK(r != NULL && !strcmp(r->interface->URI, "null"), "the preceding extension is lost"); e = r->next; }
  CHECK(e != NULL && e->interface != NULL && !strcmp(e->interface->URI, zuri[kind]) && e->data != NULL, "the extension is not read back from its tag");
  zread(kind, e->data, &B);
  CHECK(same(&A, &B), "the extension read back from its tag differs");
  if (after) { osl_generic_t *l = e->next; CHECK(l && !l->next && !strcmp(l->interface->URI, "scatnames") && !strcmp(((osl_scatnames_t *)l->data)->names->string[1], "t2") && !((osl_scatnames_t *)l->data)->names->string[2], "the following extension is lost"); }
  else CHECK(e->next == NULL, "an extension was added");
  free(s); osl_generic_free(r); osl_generic_free(before ? n : g); osl_interface_free(reg);
}
void h_text(void) {
  int kind = (int)sym_param("kind", Z_ARRAYS), mask = (int)sym_param("mask", FI | FS | FN | FO);
  zsetup(); ztext = 1;
  if (!zchoose(kind, mask)) { if (kind != Z_NULL) { sym_done(); return; } zat = -1; }
  long live = sym_heap_live();
  void *o = zmake(kind, &A);
  if (sym_param("wrap", 0)) { wrapped(kind, o); sym_leak_check(live); sym_reach("wrapped"); return; }
  char *s = zsprint(kind, o);
  CHECK(s != NULL, "no text");
  char *q = s;
  void *r = zsread(kind, &q);
  CHECK(r != NULL, "its text is not read back");
  zread(kind, r, &B);
  CHECK(same(&A, &B), "what was read back differs");
  CHECK(q >= s && q <= s + strlen(s), "the input pointer left the text");
  CHECK(s[skip_from(s, (int)(q - s))] == 0, "the text was not read to its end");
  // the text of what was read is the same text
  char *t = zsprint(kind, r); CHECK(same_text(s, t), "the text of what was read back differs");
  free(s); free(t); zfree(kind, r); zfree(kind, o);
  sym_leak_check(live); sym_reach("read back");
}
// the raw text of all extensions is kept as it is
void h_textual(void) {
  int n = (int)sym_param("n", 3), len = (int)sym_param("len", 0); long live = sym_heap_live();
  char *t = malloc((size_t)(n + len) + 1); for (int i = 0; i < len; i++) t[i] = i % 70 ? 'x' : '\n'; for (int i = 0; i < n; i++) t[len + i] = sym_ch("c", "<a>\n# /"); t[len + n] = 0;
  char *p = t; osl_textual_t *x = osl_textual_sread(&p);
  CHECK(x != NULL && x->textual != NULL && x->textual != t && !strcmp(x->textual, t) && p == t + strlen(t), "the text is not kept as it is");
  osl_textual_t *c = osl_textual_clone(x); osl_textual_free(x); CHECK(c != NULL && !strcmp(c->textual, t), "the copy has another text");
  char *s = osl_textual_sprint(c); CHECK(s == NULL, "the raw text is printed along with the extensions it holds");
  osl_textual_free(c); char *none = NULL; CHECK(osl_textual_sread(&none) == NULL, "a text made of nothing");
  free(t); sym_leak_check(live); sym_reach("kept");
}
