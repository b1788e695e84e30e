// P15 (integrity checks), P22 at the level of lists, statements and scops
#include "rel.h"
static int isacc(int t) { return (t == OSL_TYPE_ACCESS) | (t == OSL_TYPE_READ) | (t == OSL_TYPE_WRITE) | (t == OSL_TYPE_MAY_WRITE); }
#define DMAX ((int)sym_param("dmax", 100000))
static int fixed_type = -1, fixed_in;      // set: a consistent relation of that type with fixed contents, instead of any
static osl_relation_t *irel(Ref *f, int prec, int rows, int cols, int acc) {
  if (fixed_type != -1) {
    osl_relation_t *r = osl_relation_pmalloc(prec, rows, cols);
    f->rows = rows; f->cols = cols; f->prec = prec; int k = fixed_type == OSL_TYPE_DOMAIN || fixed_type == OSL_TYPE_CONTEXT;
    r->type = f->type = fixed_type; r->nb_input_dims = f->in = k ? 0 : fixed_in; r->nb_local_dims = f->loc = 0; r->nb_parameters = f->par = 0; r->nb_output_dims = f->out = cols - 2 - f->in;
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) { f->v[i][j] = acc && j == 1 ? -1 : acc && j == cols - 1 ? 2 : 0; setcell(r, i, j, f->v[i][j]); }
    return r;
  }
  osl_relation_t *r = osl_relation_pmalloc(prec, rows, cols);
  f->rows = rows; f->cols = cols; f->prec = prec;
  r->type = f->type = sym_int("type", INT_MIN, INT_MAX);
  r->nb_output_dims = f->out = sym_int("out", -1, DMAX); r->nb_input_dims = f->in = sym_int("in", -1, DMAX);
  r->nb_local_dims = f->loc = sym_int("loc", -1, DMAX); r->nb_parameters = f->par = sym_int("par", -1, DMAX);
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) {
    if (acc && j == 1) f->v[i][j] = i ? 0 : -1;
    else f->v[i][j] = j == 0 ? cellval("tag", prec) : acc && j == cols - 1 ? (cell_lo = -9, cell_hi = 9, cellval("id", prec)) : 0;
    cell_lo = LONG_MIN; cell_hi = LONG_MAX;
    setcell(r, i, j, f->v[i][j]);
  }
  return r;
}
static int eqx(int v, int e) { return (e == -1) | (v == e); }        // no expectation, or met
// one expression, no early exit: the access matrices built here have one candidate row for the identifier
static int relok(const Ref *f, int k, int type, int eo, int ei, int ep) {
  if (!k) return 1;
  int ok = ((type == OSL_TYPE_ACCESS) & isacc(f->type)) | (f->type == type);
  ok &= (f->out != -1) & (f->in != -1) & (f->loc != -1) & (f->par != -1);
  ok &= (f->type != OSL_TYPE_CONTEXT) | (f->out == 0);
  ok &= ((f->type != OSL_TYPE_CONTEXT) & (f->type != OSL_TYPE_DOMAIN)) | (f->in == 0);
  ok &= eqx(f->out, eo) & eqx(f->in, ei) & eqx(f->par, ep);
  int acc = isacc(f->type), id0 = 0;
  for (int i = 0; i < k; i++) {
    ok &= (f[i].out == f->out) & (f[i].in == f->in) & (f[i].par == f->par) & (f->out + f->in + f[i].loc + f->par + 2 == f[i].cols);
    for (int r = 0; r < f[i].rows; r++) ok &= (f[i].v[r][0] == 0) | (f[i].v[r][0] == 1);
    if (f[i].rows < 1 || f[i].cols < 3) ok &= !acc;
    else { int id = (int)(long)f[i].v[0][f[i].cols - 1], has = (f[i].v[0][0] == 0) & (id > 0); if (!i) id0 = id; ok &= !acc | (has & (id == id0)); }
  }
  return ok;
}
static osl_relation_t *iunion(Ref *f, int prec, int k, int rows, int cols, int acc) {
  osl_relation_t *r = NULL, **e = &r;
  for (int i = 0; i < k; i++) { *e = irel(&f[i], prec, rows, cols + (i ? (int)sym_param("dcols", 0) : 0), acc); if (i) { (*e)->type = f[i].type = f[0].type; sym_assume(f[i].loc != -1); } e = &(*e)->next; }
  return r;
}
void h_relation_check(void) {
  int prec = (int)sym_param("prec", SP), k = (int)sym_param("parts", 1), rows = (int)sym_param("rows", 2), cols = (int)sym_param("cols", 4), acc = (int)sym_param("acc", 0);
  long base = sym_heap_live();
  Ref f[3]; osl_relation_t *r = iunion(f, prec, k, rows, cols, acc);
  if (k && !acc) sym_assume(!isacc(f[0].type)); if (k && acc) sym_assume(isacc(f[0].type));
  int t = sym_int("etype", INT_MIN, INT_MAX), eo = sym_int("eout", -1, DMAX), ei = sym_int("ein", -1, DMAX), ep = sym_int("epar", -1, DMAX);
  sym_freeze();
  int got = osl_relation_integrity_check(r, t, eo, ei, ep) != 0, want = relok(f, k, t, eo, ei, ep);
  sym_unchanged("a check changed what it checks"); sym_thaw();
  CHECK(got == want, "a consistent relation was rejected, or an inconsistent one accepted");
  if (got) sym_reach("accepted"); else sym_reach("rejected");
  osl_relation_free(r); sym_leak_check(base);
}
// a list of accesses
void h_list_check(void) {
  int prec = (int)sym_param("prec", SP), n = (int)sym_param("n", 2);
  long base = sym_heap_live();
  Ref f[4]; osl_relation_list_t *l = NULL, **e = &l; int null[4];
  for (int i = 0; i < n; i++) { *e = osl_relation_list_malloc(); null[i] = sym_pick("null", 2); if (!null[i]) { (*e)->elt = irel(&f[i], prec, 1, 4, 1); sym_assume(isacc(f[i].type)); } e = &(*e)->next; }
  int t = sym_int("etype", INT_MIN, INT_MAX), eo = sym_int("eout", -1, DMAX), ei = sym_int("ein", -1, DMAX), ep = sym_int("epar", -1, DMAX);
  sym_freeze();
  int got = osl_relation_list_integrity_check(l, t, eo, ei, ep) != 0, want = 1;
  for (int i = 0; i < n; i++) if (!null[i]) want &= relok(&f[i], 1, t, eo, ei, ep);
  sym_unchanged("a check changed what it checks"); sym_thaw();
  CHECK(got == want, "a consistent list was rejected, or an inconsistent one accepted");
  if (got) sym_reach("accepted"); else sym_reach("rejected");
  osl_relation_list_free(l); sym_leak_check(base);
}
// a statement, alone or in a scop with a context
static int dparts, sparts, drows, srows, arows;
static osl_statement_t *istmt(Ref *d, Ref *s, Ref *a, int na, int *nit, int prec, int hasd, int hass, int body) {
  osl_statement_t *t = osl_statement_malloc();
  int w = (int)sym_param("cols", 3);
  int fx = fixed_type; fixed_in = w - 2;
  if (hasd) t->domain = iunion(d, prec, dparts, drows, w, 0);
  if (fx != -1) fixed_type = OSL_TYPE_SCATTERING;
  if (hass) t->scattering = iunion(s, prec, sparts, srows, w + 1, 0);
  if (fx != -1) fixed_type = OSL_TYPE_WRITE;
  osl_relation_list_t **e = &t->access;
  for (int i = 0; i < na; i++) { *e = osl_relation_list_malloc(); (*e)->elt = irel(&a[i], prec, arows, w + 1, 1); e = &(*e)->next; }
  *nit = -1;
  if (body) {
    osl_body_t *b = osl_body_malloc();
    b->expression = osl_strings_malloc(); osl_strings_add(b->expression, "x");
    if (body == 2) { int k = sym_pick("iters", 3); b->iterators = osl_strings_malloc(); for (int i = 0; i < k; i++) osl_strings_add(b->iterators, "i"); *nit = k; }
    t->extension = osl_generic_shell(b, osl_body_interface());
  }
  return t;
}
static int stmtok(const Ref *d, const Ref *s, const Ref *a, int na, int nit, int hasd, int hass, int ep) {
  int ok = 1, ei = -1;
  if (hasd) { ok &= relok(d, dparts, OSL_TYPE_DOMAIN, -1, 0, ep); ei = d->out; }
  if (hass) ok &= relok(s, sparts, OSL_TYPE_SCATTERING, -1, ei, ep);
  for (int i = 0; i < na; i++) ok &= relok(&a[i], 1, OSL_TYPE_ACCESS, -1, ei, ep);
  return ok & ((ei == -1) | (nit == -1) | (nit == ei));
}
void h_statement_check(void) {
  int prec = (int)sym_param("prec", SP), hasd = (int)sym_param("dom", 1), hass = (int)sym_param("scat", 1), na = (int)sym_param("acc", 1), n = (int)sym_param("n", 1), scop = (int)sym_param("scop", 0), body = (int)sym_param("body", 2);
  dparts = (int)sym_param("dparts", 1); sparts = (int)sym_param("sparts", 1); drows = (int)sym_param("drows", 1); srows = (int)sym_param("srows", 1); arows = (int)sym_param("arows", 1);
  long base = sym_heap_live();
  Ref d[4][3], s[4][3], a[4][2], c[2]; int nit[4];
  osl_statement_t *l = NULL, **e = &l;
  int focus = (int)sym_param("focus", -1), nsc = scop ? scop : 1, hasc = (int)sym_param("ctx", 1) != 2;
  for (int i = 0; i < n; i++) { fixed_type = focus == -1 || focus == i ? -1 : OSL_TYPE_DOMAIN; *e = istmt(d[i], s[i], a[i], na, &nit[i], prec, hasd, hass, body); e = &(*e)->next;
    for (int q = 0; q < na; q++) sym_assume(isacc(a[i][q].type)); if (hasd) sym_assume(!isacc(d[i][0].type)); if (hass) sym_assume(!isacc(s[i][0].type)); }
  fixed_type = -1;
  int ep, got, want = 1;
  osl_scop_t *sc = NULL;
  if (scop) {
    // the statements belong to the last scop, those before have a consistent context and nothing else
    osl_scop_t **q = &sc;
    for (int i = 0; i < nsc; i++, q = &(*q)->next) { *q = osl_scop_malloc();
      if (sym_param("ctx", 1) == 0 || i < nsc - 1) fixed_type = OSL_TYPE_CONTEXT, fixed_in = 0;
      if (hasc) { (*q)->context = irel(&c[0], prec, (int)sym_param("crows", 1), (int)sym_param("ccols", 3), 0); if (fixed_type != -1) (*q)->context->nb_parameters = c[0].par = c[0].cols - 2, (*q)->context->nb_output_dims = c[0].out = 0; }
      fixed_type = -1; if (i == nsc - 1) (*q)->statement = l; }
    if (hasc) { sym_assume(!isacc(c[0].type)); want = relok(&c[0], 1, OSL_TYPE_CONTEXT, -1, -1, -1); ep = c[0].par; }
    else { ep = -1; for (int i = 0; i < n; i++) { if (hasd && hass) sym_assume(d[i][0].par == s[i][0].par); for (int k = 0; k < na; k++) if (hasd) sym_assume(d[i][0].par == a[i][k].par); } }
  } else ep = sym_int("epar", 0, DMAX);   // a known number of parameters
  sym_freeze();
  got = (scop ? osl_scop_integrity_check(sc) : osl_statement_integrity_check(l, ep)) != 0;
  sym_unchanged("a check changed what it checks"); sym_thaw();
  for (int i = 0; i < n; i++) want &= stmtok(d[i], s[i], a[i], na, nit[i], hasd, hass, ep);
  if (!hasd) sym_assume(hass == 0 || na == 0);      // without a domain, nothing says how many iterators there are
  CHECK(got == want, "a consistent statement was rejected, or an inconsistent one accepted");
  if (got) sym_reach("accepted"); else sym_reach("rejected");
  if (scop) osl_scop_free(sc); else osl_statement_free(l);
  CHECK(osl_scop_integrity_check(NULL) && osl_statement_integrity_check(NULL, 3) && osl_relation_list_integrity_check(NULL, 5, 1, 1, 1), "an absent structure is consistent");
  sym_leak_check(base);
}
// attributes over statements and scops: the maximum over every member
static int imax(int a, int b) { int g = -(a > b); return (a & g) | (b & ~g); }
static int member, absent = -1;   // one member may be absent
static int asym(const char *nm, int on, int other) { int at = (int)sym_param("at", 0); return on && member >= at && member < at + (int)sym_param("span", 3) ? sym_int(nm, -1, DMAX) : other; }
static void arel(osl_relation_t **e, Ref *f, int type, int which, int m[5]) {
  if (member == absent) { member++; *e = NULL; return; }
  osl_relation_t *r = *e = osl_relation_pmalloc(SP, 1, 4);
  int acc = isacc(type); r->type = type;
  r->nb_output_dims = asym("out", which == 2 && type == OSL_TYPE_SCATTERING || which == 1 && type == OSL_TYPE_DOMAIN, 1); r->nb_input_dims = asym("in", which == 1, 1);
  r->nb_local_dims = asym("loc", which == 3, 2); r->nb_parameters = asym("par", which == 0, 3);
  int id = 0;
  if (acc) { int at = (int)sym_param("at", 0); id = which == 4 && member >= at && member < at + (int)sym_param("span", 3) ? sym_int("id", 1, INT_MAX) : 4; osl_int_set_si(SP, &r->m[0][1], -1); osl_int_set_si(SP, &r->m[0][3], id); }
  member++;
  m[0] = imax(m[0], r->nb_parameters);
  m[1] = imax(m[1], type == OSL_TYPE_CONTEXT ? 0 : type == OSL_TYPE_DOMAIN ? r->nb_output_dims : r->nb_input_dims);
  m[2] = imax(m[2], type == OSL_TYPE_SCATTERING ? r->nb_output_dims : 0); m[3] = imax(m[3], r->nb_local_dims); m[4] = imax(m[4], id);
}
void h_scop_attributes(void) {
  int which = (int)sym_param("which", 0), level = (int)sym_param("level", 2), ns = (int)sym_param("stmts", 2), parts = (int)sym_param("parts", 2), nc = (int)sym_param("scops", 2);
  long base = sym_heap_live();
  int m[5], o[5]; Ref f;
  for (int i = 0; i < 5; i++) m[i] = o[i] = i == which ? sym_int("start", -1, DMAX) : -1;
  osl_scop_t *sc = NULL, **q = &sc;
  int nsc = level == 2 ? nc : 1, p0 = 0; if (sym_param("absent", 0)) absent = sym_pick("absent", 14);
  for (int c = 0; c < nsc; c++) {
    *q = osl_scop_malloc();
    if (level == 2) { arel(&(*q)->context, &f, OSL_TYPE_CONTEXT, which, m); if (c == 0 && (*q)->context) p0 = (*q)->context->nb_parameters; }
    osl_statement_t **e = &(*q)->statement;
    for (int i = 0; i < (level ? ns : 1); i++) {
      osl_statement_t *t = *e = osl_statement_malloc(); e = &t->next;
      if (level) { arel(&t->domain, &f, OSL_TYPE_DOMAIN, which, m); if (parts > 1 && t->domain) arel(&t->domain->next, &f, OSL_TYPE_DOMAIN, which, m); arel(&t->scattering, &f, OSL_TYPE_SCATTERING, which, m); if (parts > 1 && i && t->scattering) arel(&t->scattering->next, &f, OSL_TYPE_SCATTERING, which, m); }
      osl_relation_list_t **a = &t->access;
      for (int k = 0; k < (level ? 1 : 3); k++) { *a = osl_relation_list_malloc(); arel(&(*a)->elt, &f, k % 2 ? OSL_TYPE_READ : OSL_TYPE_WRITE, which, m); a = &(*a)->next; }
    }
    q = &(*q)->next;
  }
  sym_freeze();
  if (level == 2) osl_scop_get_attributes(sc, &o[0], &o[1], &o[2], &o[3], &o[4]);
  else if (level == 1) osl_statement_get_attributes(sc->statement, &o[0], &o[1], &o[2], &o[3], &o[4]);
  else osl_relation_list_get_attributes(sc->statement->access, &o[0], &o[1], &o[2], &o[3], &o[4]);
  CHECK(o[0] == m[0], "wrong number of parameters"); CHECK(o[1] == m[1], "wrong number of iterators"); CHECK(o[2] == m[2], "wrong number of scattering dimensions"); CHECK(o[3] == m[3], "wrong number of local dimensions"); CHECK(o[4] == m[4], "wrong array identifier");
  if (level == 2) CHECK(osl_scop_get_nb_parameters(sc) == p0, "wrong number of parameters of a scop");
  if (level) CHECK(osl_statement_get_nb_iterators(sc->statement) == (sc->statement->domain ? sc->statement->domain->nb_output_dims : 0), "wrong number of iterators of a statement");
  else CHECK(osl_statement_get_nb_iterators(sc->statement) == 0 && osl_scop_get_nb_parameters(sc) == 0, "without a domain or context the count is zero");
  sym_unchanged("asking for attributes changed the structure"); sym_thaw();
  sym_reach("attributes");
  osl_scop_free(sc); sym_leak_check(base);
}
