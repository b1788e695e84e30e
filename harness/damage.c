// P16: damaged documents. Either the reader stops the program with its own error, or it returns something whole.
#include "zoo.h"
#include "tok.h"
static Str A, B;
static char doc[60000]; static int dl;
static void w(const char *s) { while (*s) doc[dl++] = *s++; doc[dl] = 0; }
enum { R_KIND, R_GENERIC, R_SCOP, R_STRINGS, R_REL, R_STATEMENT, R_BODY, R_RELLIST };
static int how, kind, prec;
static int builds(void) { return how == R_SCOP ? Z_SCOP : how == R_STATEMENT ? Z_STATEMENT : how == R_STRINGS ? Z_STRINGS : how == R_REL ? Z_RELATION : how == R_BODY ? Z_BODY : how == R_RELLIST ? Z_RELLIST : kind; }
static void text_of(void *o) {
  FILE *f = NULL; char *t;
  switch (how) {
    case R_SCOP: f = sym_fmem_new(); osl_scop_print(f, o); break;
    case R_STATEMENT: f = sym_fmem_new(); osl_statement_print(f, o); break;
    case R_STRINGS: f = sym_fmem_new(); osl_strings_print(f, o); break;
    case R_REL: f = sym_fmem_new(); osl_relation_print(f, o); break;
    case R_BODY: f = sym_fmem_new(); osl_body_print(f, o); break;
    case R_RELLIST: f = sym_fmem_new(); osl_relation_list_print(f, o); break;
    case R_GENERIC: w("<"); w(zuri[kind]); w(">\n"); /* fall through */
    default: t = zsprint(kind, o); w(t); free(t); if (how == R_GENERIC) { w("</"); w(zuri[kind]); w(">\n"); } }
  if (f) { w(sym_fmem_text(f)); sym_fmem_close(f); }
}
// what the text says of a relation: type line, perhaps a number of parts, then parts of a line of six numbers and rows
static const char *ln; static int lnp;
static int line(void) {                                // moves to the next line with content; its content ends at a comment
  for (;;) { int s = lnp; while (ln[lnp] == ' ' || (ln[lnp] >= 9 && ln[lnp] <= 13)) lnp++; if (ln[lnp] == '#') { while (ln[lnp] && ln[lnp] != '\n') lnp++; continue; } (void)s; return ln[lnp] != 0; }
}
static int number(I128 *v) {                           // the next number on this line
  while (ln[lnp] == ' ' || (ln[lnp] >= 9 && ln[lnp] <= 13 && ln[lnp] != '\n')) lnp++;
  int p = lnp, neg = 0, d = 0; I128 x = 0;
  if (ln[p] == '-' || ln[p] == '+') neg = ln[p++] == '-';
  while (ln[p] >= '0' && ln[p] <= '9') { x = x * 10 + (ln[p++] - '0'); d++; }
  if (!d) return 0;
  lnp = p; *v = neg ? -x : x; return 1;
}
static void rest(void) { while (ln[lnp] && ln[lnp] != '\n') lnp++; if (ln[lnp]) lnp++; }
static void check_relation(osl_relation_t *r, const char *t, int typed) {
  I128 v, n = 1; int parts = 0;
  if (t) { ln = t; lnp = 0; }
  if (typed) { CHECK(line(), "a relation is read from nothing"); rest(); }
  for (osl_relation_t *p = r; p; p = p->next, parts++) {
    CHECK(line(), "a part is read from nothing"); int k = lnp; I128 a[6]; int c = 0;
    while (c < 6 && number(&a[c])) c++;
    if (c == 1 && !parts) { n = a[0]; lnp = k; rest(); CHECK(line(), "a part is read from nothing"); c = 0; while (c < 6 && number(&a[c])) c++; }
    CHECK(c == 6 && p->nb_rows == a[0] && p->nb_columns == a[1] && p->nb_output_dims == a[2] && p->nb_input_dims == a[3] && p->nb_local_dims == a[4] && p->nb_parameters == a[5], "the shape is not what the text says");
    rest();
    for (int i = 0; i < p->nb_rows; i++) {
      CHECK(line(), "a row is made up after the end of the text");
      for (int j = 0; j < p->nb_columns; j++) { CHECK(number(&v), "a coefficient is made up"); CHECK(val(p->precision, p->m[i][j]) == v, "a coefficient is not the one of the text"); }
      rest(); } }
  CHECK(parts == n, "the number of parts is not what the text says");
}
static void *reader(FILE **f) {
  char *s = doc; osl_interface_t *reg; void *r = NULL;
  int stream = (int)sym_param("stream", 0);
  if (stream || how == R_SCOP || how == R_STATEMENT || how == R_BODY || how == R_RELLIST) *f = sym_fmem_open(doc);
  switch (how) {
    case R_SCOP: reg = osl_interface_get_default_registry(); r = osl_scop_pread(*f, reg, prec); osl_interface_free(reg); break;
    case R_STATEMENT: reg = osl_interface_get_default_registry(); r = osl_statement_pread(*f, reg, prec); osl_interface_free(reg); break;
    case R_STRINGS: r = *f ? osl_strings_read(*f) : osl_strings_sread(&s); break;
    case R_REL: r = *f ? osl_relation_pread(*f, prec) : osl_relation_psread(&s, prec); break;
    case R_BODY: if (*f) sym_fmem_close(*f), *f = NULL; r = osl_body_sread(&s); break;
    case R_RELLIST: r = osl_relation_list_pread(*f, prec); break;
    case R_GENERIC: reg = osl_interface_get_default_registry(); r = *f ? osl_generic_read_one(*f, reg) : osl_generic_sread(&s, reg); osl_interface_free(reg); break;
    default: r = zsread(kind, &s); CHECK(s >= doc && s <= doc + strlen(doc), "the reader leaves the text"); }
  return r;
}
void h_damage(void) {
  how = (int)sym_param("how", R_KIND); kind = (int)sym_param("kind", Z_ARRAYS);
  zsetup(); ztext = 1; zwf = 1; zids = 12; zat = -1; prec = zprec;
  int mode = (int)sym_param("mode", 0), from = (int)sym_param("from", 0), to = (int)sym_param("to", 1 << 20);
  void *o = zmake(builds(), &A); text_of(o); zfree(builds(), o);
  int n = dl; if (from >= n) { sym_reach("refused"); sym_reach("read"); return; } if (to > n) to = n;
  int at = from + sym_pick("pos", to - from + (mode == 2 && to == n));
  if (mode == 0) doc[at] = 0;                                                    // cut
  else if (mode == 1) { doc[at] = (char)sym_byte("byte"); if (sym_param("nozero", 1)) sym_assume(doc[at] != 0); }   // one byte changed
  else if (mode == 2) { for (int i = n; i >= at; i--) doc[i + 1] = doc[i]; doc[at] = (char)sym_byte("byte"); sym_assume(doc[at] != 0); }    // one byte added
  else if (mode == 3) for (int i = at; i < n; i++) doc[i] = doc[i + 1];          // one byte lost
  else { int e = doc[at] == '\n', b = at; while (b > 0 && doc[b - 1] != '\n') b--; if (b != at) { sym_done(); return; } while (doc[at] && doc[at] != '\n') at++; for (int i = b, j = at + !e; j <= n + e; i++, j++) doc[i] = doc[j]; }   // one line lost
  long live = sym_heap_live(); FILE *f = NULL;
  sym_exit_ok(1); sym_reach("refused");
  void *r = reader(&f);
  sym_exit_ok(0); sym_reach("read");
  if (how == R_REL && r) check_relation(r, doc, 1);
  if (how == R_KIND && kind == Z_RELATION && r) check_relation(r, doc, 1);
  if (how == R_RELLIST) {
    I128 c; int k = 0; ln = doc; lnp = 0;
    if (line() && number(&c)) { rest(); for (osl_relation_list_t *l = r; l; l = l->next, k++) check_relation(l->elt, NULL, 1); CHECK(k == c || (c < 0 && k == 0), "the number of relations is not what the text says"); } else CHECK(r == NULL, "relations are made up"); }
  static char pa[60000], pb[60000];
  if (r && sym_param("reprint", 0) && how == R_KIND) { char *t = zsprint(kind, r); plain(t, pa); plain(doc, pb); free(t); CHECK(same_text(pa, pb), "what is read is not what the text says"); }
  if (f) sym_fmem_close(f);
  int k = how == R_GENERIC ? Z_GENERIC : builds();
  if (mode == 0 && how == R_SCOP) {                                              // a scop is whole or not there
    static const char tag[] = "<OpenScop>"; int whole = 0; for (int i = 0; doc[i]; i++) { int j = 0; while (tag[j] && doc[i + j] == tag[j]) j++; whole |= !tag[j]; }
    CHECK((r != NULL) == whole, "a scop is lost or made up"); if (r) { zread(k, r, &B); CHECK(same(&A, &B), "what is read is not what the text says"); } }
  ztext = 0; zwf = 0;
  if (r) {
    zread(k, r, &B);                                                             // every part of it is there
    if (sym_param("use", 1)) {
      FILE *g = sym_fmem_new(); zidump(k, g, r, 1); sym_fmem_close(g);
      if (k != Z_VECTOR) { void *c = zclone(k, r); zequal(k, c, r); zfree(k, c); } }
    zfree(k, r); }
  sym_leak_check(live);
}
