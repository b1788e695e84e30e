// P02: whole scops, printed and read back.
#include "zoo.h"
static Str A, B;
static osl_scop_t *readback(FILE *f) {
  int how = (int)sym_param("how", 0);
  if (how == 0) return osl_scop_read(f);
  osl_interface_t *reg = osl_interface_get_default_registry();
  osl_scop_t *r = osl_scop_pread(f, reg, zprec); osl_interface_free(reg); return r;
}
static osl_scop_t *setup(void) {
  zsetup(); ztext = 1; zwf = 1; zids = 12; zat = -1; zun = (int)sym_param("unions", 0);
  int mask = (int)sym_param("mask", FI | FS | FN | FO), at = (int)sym_param("at", -1);
  if (mask && at < 0) { int ku = zun; zun = 0; if (!zchoose(Z_SCOP, mask)) { sym_done(); return NULL; } zun = ku; }
  zat = at >= 0 ? at : mask ? zat : -1;
  static const char *const ps[3] = {"32", "64", "0"};
  if (sym_param("how", 0) == 0) sym_setenv_precision(zprec == 32 ? ps[0] : zprec == 64 ? ps[1] : NULL);
  return zmake(Z_SCOP, &A);
}
void h_scop_text(void) {
  long live = sym_heap_live();
  osl_scop_t *o = setup(); if (!o) return;
  FILE *f = sym_fmem_new(), *g, *h; osl_scop_print(f, o);
  char *t = sym_fmem_text(f);
  g = sym_fmem_open(t); osl_scop_t *r = readback(g);
  CHECK(r != NULL, "no scop is read back");
  zread(Z_SCOP, r, &B); CHECK(same(&A, &B), "the scops read back differ");
  h = sym_fmem_new(); osl_scop_print(h, r); CHECK(same_text(t, sym_fmem_text(h)), "the text of the scops read back differs");
  sym_fmem_close(f); sym_fmem_close(g); sym_fmem_close(h);
  osl_scop_free(o); osl_scop_free(r); sym_leak_check(live); sym_reach("read back");
}
// the same content in another layout: lines added anywhere between lines, comment lines removed
static char lay[40000];
void h_scop_layout(void) {
  long live = sym_heap_live();
  osl_scop_t *o = setup(); if (!o) return;
  FILE *f = sym_fmem_new(), *g; osl_scop_print(f, o);
  char *t = sym_fmem_text(f), *d = lay; int nl = 0, form = (int)sym_param("form", 0);
  for (char *s = t; *s; s++) nl += *s == '\n';
  static const char *const add[4] = {"\n", "# more\n", " \t\n", "\n#<scop> </scop>\n  # 3 4\n\n"};
  const char *what = form == 1 ? "" : add[sym_pick("what", 4)];
  int at = form == 2 ? sym_pick("line", nl) : -1, k = 0;
  for (char *s = t; *s;) {
    int comment = *s == '#', blank = *s == '\n';
    if (form == 0 || k == at) for (const char *q = what; *q; q++) *d++ = *q;   // everywhere, or before one line
    if (form == 1 && (comment || blank)) { while (*s++ != '\n'); k++; continue; }
    while (*s != '\n') *d++ = *s++;
    *d++ = *s++; k++; }
  *d = 0;
  g = sym_fmem_open(lay); osl_scop_t *r = readback(g);
  CHECK(r != NULL, "no scop is read back"); zread(Z_SCOP, r, &B); CHECK(same(&A, &B), "the scops read from the same content laid out differently differ");
  sym_fmem_close(f); sym_fmem_close(g); osl_scop_free(o); osl_scop_free(r); sym_leak_check(live);
  sym_reach("same");
}
// pieces of a scop on their own: a list of relations, the statements of a list one after the other, a line of strings
void h_pieces(void) {
  int kind = (int)sym_param("kind", Z_RELLIST), env = (int)sym_param("env", 0), mask = (int)sym_param("mask", FI | FS | FN | FO);
  long live = sym_heap_live();
  zsetup(); ztext = 1; zwf = 1; zids = 12; zat = -1;
  if (mask && !zchoose(kind, mask)) { sym_done(); return; }
  if (env) sym_setenv_precision(zprec == 32 ? "32" : zprec == 64 ? "64" : NULL);
  void *o = zmake(kind, &A), *r = NULL; osl_interface_t *reg = osl_interface_get_default_registry();
  FILE *f = sym_fmem_new();
  if (kind == Z_RELLIST) osl_relation_list_print(f, o); else if (kind == Z_STRINGS) osl_strings_print(f, o); else osl_statement_print(f, o);
  char *t = sym_fmem_text(f), *d = lay; int end; for (char *s = t; *s; s++) *d++ = *s; end = (int)(d - lay); for (const char *s = "# next\n17\n"; *s; s++) *d++ = *s; *d = 0;
  FILE *g = sym_fmem_open(lay);
  if (kind == Z_RELLIST) r = env ? osl_relation_list_read(g) : osl_relation_list_pread(g, zprec);
  else if (kind == Z_STRINGS) r = osl_strings_read(g);
  else { osl_statement_t *h = NULL, **e = &h; int n = (int)osl_statement_number(o); for (int i = 0; i < n; i++) { *e = env ? osl_statement_read(g) : osl_statement_pread(g, reg, zprec); CHECK(*e != NULL && (*e)->next == NULL, "not one statement"); e = &(*e)->next; } r = h; }
  (void)end;
  CHECK(osl_util_read_int(g, NULL) == 17, "more or less than the piece was read");
  CHECK((o == NULL) == (r == NULL), "what is read back differs");
  if (o) { zread(kind, r, &B); CHECK(same(&A, &B), "what is read back differs"); }
  sym_fmem_close(f); sym_fmem_close(g); osl_interface_free(reg); zfree(kind, o); zfree(kind, r); sym_leak_check(live); sym_reach("read back");
}
