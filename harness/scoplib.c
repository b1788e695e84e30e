// P25: the SCoPLib export states the scop: an independent writer of that format, from the description the scop is built from.
#include "wf.h"
static char X[TMAX], Y[TMAX];
static Wf rel[48]; static int nrel;
static int par, prec;
static Wf *fresh(int type, int rows, int out, int in) {
  Wf *q = &rel[nrel++]; q->type = type; q->prec = prec; q->parts = 1;
  Part *p = &q->p[0]; p->rows = rows; p->out = out; p->in = in; p->loc = 0; p->par = par;
  wf_fill(q, nrel + (int)sym_param("seed", 0)); return q;
}
static Wf *schedule(int type, int rows, int in) {          // -identity, one row for each output dimension
  Wf *q = fresh(type, rows, rows, in); Part *p = &q->p[0];
  for (int i = 0; i < rows; i++) for (int j = 0; j <= rows; j++) p->v[i][j] = j == i + 1 ? -1 : 0;
  return q;
}
static Wf *acc_rel(int type, int id, int dims, int in) {
  Wf *q = schedule(type, 1 + dims, in); Part *p = &q->p[0];
  for (int j = 2; j < wcols(p); j++) p->v[0][j] = 0;
  p->v[0][wcols(p) - 1] = id;
  return q;
}
static int cell_i, cell_at;
static void open_cells(Wf *q) {                            // the coefficients free to take any value
  Part *p = &q->p[0]; int dom = q->type == OSL_TYPE_DOMAIN || q->type == OSL_TYPE_CONTEXT;
  for (int i = isacc(q->type) ? 1 : 0; i < p->rows; i++) for (int j = dom ? 0 : p->out + 1; j < wcols(p); j++)
    if (cell_i++ == cell_at) { p->v[i][j] = j ? sym_i64("c", LONG_MIN, LONG_MAX) : sym_i64("c", 0, 1); sym_reach("any"); }
}
static void num(I128 v) { puti((long)v); put(" "); }
static void cols(const Part *p, int i, int from, int to) { for (int j = from; j < to; j++) num(p->v[i][j]); }
static void zeros(int n) { while (n-- > 0) num(0); }
static void domain_text(const Part *p, int fake) {
  num(p->rows + fake); num(2 + p->out + fake + par); put("\n");
  if (fake) { num(0); num(1); zeros(par + 1); put("\n"); }
  for (int i = 0; i < p->rows; i++) { cols(p, i, 0, 1 + p->out); cols(p, i, wcols(p) - par - 1, wcols(p)); put("\n"); }
}
static void scattering_text(const Part *p, int fake) {
  num(p->rows + 2 * fake); num(2 + p->in + fake + par); put("\n");
  for (int i = 0; i < p->rows; i++) { num(p->v[i][0]); cols(p, i, 1 + p->out, 1 + p->out + p->in); zeros(fake); cols(p, i, wcols(p) - par - 1, wcols(p)); put("\n"); }
  if (fake) { num(0); num(1); zeros(par + 1); put("\n"); zeros(par + 3); put("\n"); }
}
static void accesses_text(Wf **a, int n, int type, int in, int fake) {
  int rows = 0; for (int k = 0; k < n; k++) if (a[k]->type == type) rows += a[k]->p[0].rows == 1 ? 1 : a[k]->p[0].rows - 1;
  num(rows); num(2 + in + fake + par); put("\n");
  for (int k = 0; k < n; k++) if (a[k]->type == type) { const Part *p = &a[k]->p[0]; I128 id = p->v[0][wcols(p) - 1];
    if (p->rows == 1) { num(id); zeros(in + fake + par + 1); put("\n"); }
    for (int i = 1; i < p->rows; i++) { num(i == 1 ? id : 0); cols(p, i, 1 + p->out, 1 + p->out + p->in); zeros(fake); cols(p, i, wcols(p) - par - 1, wcols(p)); put("\n"); } }
}
void h_scoplib(void) {
  int stmts = (int)sym_param("stmts", 1), depth = (int)sym_param("depth", 1), has = (int)sym_param("has", 15), pads = (int)sym_param("pads", 0), mix = (int)sym_param("mix", 0), via = (int)sym_param("via", 0); nrel = 0; cell_i = 0;
  prec = (int)sym_param("prec", DP); par = (int)sym_param("par", 1); cell_at = (int)sym_param("at", -1);
  int drows = (int)sym_param("drows", -1);
  long base = sym_heap_live();
  osl_scop_t *o = osl_scop_malloc(); o->registry = osl_interface_get_default_registry(); o->language = strcpy(malloc(2), "C");
  Wf *ctx = fresh(OSL_TYPE_CONTEXT, (int)sym_param("crows", 2), 0, 0); open_cells(ctx); o->context = wf_make(ctx);
  static const char *const pn[3] = {"N", "M_long", "k"}, *const in[3] = {"i", "jj", "k0"}, *const an[3] = {"A", "tmp", "x1"};
  if (has & 1) { osl_strings_t *s = osl_strings_malloc(); for (int i = 0; i < par; i++) osl_strings_add(s, pn[i]); o->parameters = osl_generic_shell(s, osl_strings_interface()); }
  if (has & 2) { osl_arrays_t *a = osl_arrays_malloc(); for (int i = 0; i < 3; i++) osl_arrays_add(a, i + 1, an[i]); o->extension = osl_generic_shell(a, osl_arrays_interface()); }
  L = 0;
  if (!via) { put("SCoP\nC\n"); domain_text(&ctx->p[0], 0);
    num(has & 1 ? 1 : 0); put("\n"); if (has & 1) { for (int i = 0; i < par; i++) { put(pn[i]); put(" "); } put("\n"); }
    num(stmts); put("\n"); }
  osl_statement_t **e = &o->statement;
  for (int s = 0; s < stmts; s++, e = &(*e)->next) {
    int d = (depth + s) % 3, rows = d ? 1 + s + d : 0, out = pads ? 2 * 2 + 1 : sym_param("flat", 0) ? 1 : 2 * d + 1, n = 0; if (drows >= 0) rows = drows;
    osl_statement_t *st = *e = osl_statement_malloc(); Wf *acc[4];
    Wf *dom = fresh(OSL_TYPE_DOMAIN, rows, d, 0), *sc = schedule(OSL_TYPE_SCATTERING, out, d);
    open_cells(dom); open_cells(sc); st->domain = wf_make(dom); st->scattering = wf_make(sc);
    int fake = d == 0 && rows == 0 && out == 1;
    static const int ty[4] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_READ, OSL_TYPE_WRITE};
    osl_relation_list_t **l = &st->access;
    int free_ = (int)sym_param("any", 0), na = free_ ? free_ : mix ? 4 : 2, seen = 0;   // any: that many accesses of any kind and dimension
    for (int k = 0; k < na; k++) {
      int type = ty[mix == 2 ? 3 - k : k], dims = (k + s + mix) % 3;
      if (free_ && !s) { type = sym_pick("write", 2) ? OSL_TYPE_WRITE : OSL_TYPE_READ; dims = sym_pick("dims", 3); }
      seen |= type == OSL_TYPE_WRITE ? 2 : 1;
      Wf *q = acc_rel(type, k == 0 && cell_at < 0 ? sym_int("id", 1, 12) : 2 + k + s, dims, d); open_cells(q); acc[n++] = q; *l = osl_relation_list_malloc(); (*l)->elt = wf_make(q); l = &(*l)->next; }
    if (seen != 3) { sym_done(); return; }
    if (has & 4) { osl_body_t *b = osl_body_malloc(); b->iterators = osl_strings_malloc(); for (int i = 0; i < d; i++) osl_strings_add(b->iterators, in[i]); b->expression = osl_strings_encapsulate(strcpy(malloc(20), s ? "S2(i, jj);" : "a[i] = b;")); st->extension = osl_generic_shell(b, osl_body_interface()); }
    num(1); put("\n"); domain_text(&dom->p[0], fake);
    num(1); put("\n"); scattering_text(&sc->p[0], fake);
    num(1); put("\n"); accesses_text(acc, n, OSL_TYPE_READ, d, fake); accesses_text(acc, n, OSL_TYPE_WRITE, d, fake);
    if (has & 4) { num(1); put("\n"); if (d) for (int i = 0; i < d; i++) { put(in[i]); put(" "); } else put("fakeiter"); put("\n"); put(s ? "S2(i, jj);" : "a[i] = b;"); put("\n"); } else { num(0); put("\n"); }
  }
  if (!via && (has & 2)) { put("<arrays>\n3\n"); for (int i = 0; i < 3; i++) { num(i + 1); put(an[i]); put("\n"); } put("</arrays>\n"); }
  CHECK(via || osl_scop_check_compatible_scoplib(o), "a scop SCoPLib can express is refused");
  FILE *f = sym_fmem_new();
  if (!via) osl_scop_print_scoplib(f, o); else osl_statement_pprint_scoplib(f, o->statement, NULL);
  plain(T, X); plain(sym_fmem_text(f), Y);
  CHECK(same_text(X, Y), "the export is not this scop");
  sym_fmem_close(f); osl_scop_free(o); sym_leak_check(base); sym_reach("exported");
}
// what SCoPLib cannot express is refused: one thing at a time makes a scop which could be exported one which cannot
void h_refused(void) {
  int which = (int)sym_param("which", 0), stmts = (int)sym_param("stmts", 2), print = sym_pick("print", 2), at = sym_pick("at", stmts), bad = 1; nrel = 0;
  prec = (int)sym_param("prec", DP); par = (int)sym_param("par", 1);
  osl_scop_t *o = osl_scop_malloc(); o->registry = osl_interface_get_default_registry(); o->language = strcpy(malloc(2), "C"); o->context = wf_make(fresh(OSL_TYPE_CONTEXT, 1, 0, 0));
  osl_statement_t **e = &o->statement;
  for (int s = 0; s < stmts; s++, e = &(*e)->next) {
    int d = 1 + s % 2, out = 2 * d + 1, hit = s == at, parts = which == 2 ? (int)sym_param("parts", 2) : 1;
    osl_statement_t *st = *e = osl_statement_malloc(); Wf *dom = fresh(OSL_TYPE_DOMAIN, 1 + s, d, 0), *sc = schedule(OSL_TYPE_SCATTERING, out, d), *rd = acc_rel(OSL_TYPE_READ, 1, 1, d), *wr = acc_rel(OSL_TYPE_WRITE, 2, 1, d);
    if (hit && which == 0) { int i = sym_pick("row", out), j = sym_pick("column", out); I128 v = sym_i64("v", LONG_MIN, LONG_MAX); sc->p[0].v[i][j + 1] = v; bad = v != (i == j ? -1 : 0); }
    if (hit && which == 1) { sc->p[0].loc = 1 + sym_pick("loc", 2); wf_fill(sc, 3); for (int i = 0; i < out; i++) for (int j = 0; j <= out; j++) sc->p[0].v[i][j] = j == i + 1 ? -1 : 0; }
    if (parts > 1) { dom->parts = parts; for (int k = 1; k < parts; k++) dom->p[k] = dom->p[0]; if (hit) dom->p[sym_pick("part", parts)].loc = 1 + sym_pick("loc", 2); wf_fill(dom, 3); }
    st->domain = hit && which == 3 ? NULL : wf_make(dom); st->scattering = hit && which == 4 ? NULL : wf_make(sc);
    st->access = osl_relation_list_malloc(); st->access->elt = wf_make(rd); st->access->next = osl_relation_list_malloc(); st->access->next->elt = wf_make(wr); }
  if (which == 5) { o->next = osl_scop_malloc(); o->next->registry = osl_interface_get_default_registry(); o->next->language = strcpy(malloc(2), "C"); o->next->context = wf_make(fresh(OSL_TYPE_CONTEXT, 1, 0, 0)); }
  if (which == 6) bad = 0;
  FILE *f = sym_fmem_new();
  if (bad) sym_exit_ok(1);
  if (print) { osl_scop_print_scoplib(f, o); CHECK(!bad, "a scop which SCoPLib cannot express is exported"); }
  else { int r = osl_scop_check_compatible_scoplib(o); CHECK((r != 0) == !bad, "a scop is not accepted exactly if SCoPLib can express it"); }
  sym_fmem_close(f); osl_scop_free(o); if (bad) sym_reach("refused"); else sym_reach("accepted");
}
