// P12 (unions and lists), P14 (extension of outputs), P22 (attributes, array ids), P09 (precision of relations), P04 (partial clones of unions)
#include "rel.h"
#define MAXP 11
static int howmany(const char *nm, int n) { int m = (int)sym_param("many", 0); return m ? m : sym_pick(nm, n); }
// a union of k parts of different shapes; part i has rows i%3, columns 1+i
static osl_relation_t *unio(Ref *f, const char *nm, int prec, int k) {
  osl_relation_t *r = NULL, **e = &r;
  for (int i = 0; i < k; i++) { *e = part(&f[i], nm, prec, i % 3, 2 + (i & 1)); e = &(*e)->next; }
  return r;
}
static void sameunion(const osl_relation_t *r, const Ref *f, int k) {
  for (int i = 0; i < k; i++, r = r->next) SAME(r, &f[i], "part of a union");
  CHECK(r == NULL, "more parts than expected");
}
void h_union(void) {
  int prec = (int)sym_param("prec", SP), k = howmany("k", 4), l = howmany("l", 4);
  long base = sym_heap_live();
  Ref f[2 * MAXP], g[MAXP];
  osl_relation_t *r = unio(f, "r", prec, k), *s;
  int same = (int)sym_param("same", 0);   // the union of a relation with itself
  if (same) { s = r; l = k; for (int i = 0; i < k; i++) g[i] = f[i]; } else s = unio(g, "s", prec, l);
  sym_freeze();
  osl_relation_t *u = osl_relation_union(r, s);
  CHECK(osl_relation_nb_components(r) == k && osl_relation_nb_components(s) == l && osl_relation_nb_components(u) == k + l, "wrong number of parts");
  sym_unchanged("a union changed its operands"); sym_thaw();
  for (int i = 0; i < l; i++) f[k + i] = g[i];
  sameunion(u, f, k + l); sameunion(r, f, k); sameunion(s, g, l);
  // the union is a copy
  for (osl_relation_t *p = u; p; p = p->next) { p->type = 77; if (p->nb_rows > 0) osl_int_set_si(prec, &p->m[0][0], 42); }
  sameunion(r, f, k); sameunion(s, g, l);
  osl_relation_free(u); sameunion(r, f, k); sameunion(s, g, l);
  if (same) s = osl_relation_clone(r);
  // appending links the operand itself at the end
  osl_relation_add(&r, s); sameunion(r, f, k + l); CHECK(osl_relation_nb_components(r) == k + l, "wrong number of parts after appending");
  sym_reach("union");
  osl_relation_free(r); sym_leak_check(base);
}
void h_nclone(void) {
  int prec = (int)sym_param("prec", SP), k = howmany("k", 5), by_rows = (int)sym_param("rows", 0);
  long base = sym_heap_live();
  Ref f[MAXP]; osl_relation_t *r = NULL, **e = &r;
  for (int i = 0; i < k; i++) { *e = part(&f[i], "r", prec, by_rows ? 2 + i % 2 : i % 3, 2 + i % 2); e = &(*e)->next; }
  int n = sym_int("n", -1, INT_MAX), lim = by_rows ? (k ? 2 : INT_MAX) : k, ok = n <= lim;
  if (ok) { sym_exit_ok(0); if (by_rows && !k) n = 3; n = (int)sym_concrete(n); } else { sym_exit_ok(1); sym_reach("refused"); }
  sym_freeze();
  osl_relation_t *c = by_rows ? osl_relation_clone_nconstraints(r, n) : osl_relation_nclone(r, n);
  sym_exit_ok(0);
  CHECK(ok, "more was cloned than there is");
  sym_unchanged("cloning changed its source"); sym_thaw();
  int m = by_rows || n == -1 ? k : n; osl_relation_t *p = c;
  for (int i = 0; i < m; i++, p = p->next) { Ref g = f[i]; if (by_rows && n != -1) g.rows = n; SAME(p, &g, "part of a clone"); }
  CHECK(p == NULL, "more parts than requested");
  for (p = c; p; p = p->next) { p->nb_parameters = 99; for (int i = 0; i < p->nb_rows; i++) osl_int_set_si(prec, &p->m[i][0], 42); }
  sameunion(r, f, k);
  osl_relation_free(c); sameunion(r, f, k);
  sym_reach("cloned");
  osl_relation_free(r); sym_leak_check(base);
}
void h_remove_part(void) {
  int prec = (int)sym_param("prec", SP), k = sym_param("many", 0) ? (int)sym_param("many", 0) : 1 + sym_pick("k", 4), x = sym_pick("x", k + 2);
  long base = sym_heap_live();
  Ref f[MAXP], o; osl_relation_t *r = unio(f, "r", prec, k), *p = r, *other = part(&o, "o", prec, 1, 2);
  for (int i = 0; i < x && p; i++) p = p->next;
  if (x == k) p = other; else if (x == k + 1) p = NULL;
  if (x >= k) sym_freeze();
  osl_relation_remove_part(&r, p);
  if (x >= k) { sym_unchanged("removing an absent part changed the union"); sym_thaw(); }
  else { for (int i = x; i + 1 < k; i++) f[i] = f[i + 1]; k--; }
  sameunion(r, f, k); SAME(other, &o, "unrelated relation"); CHECK(osl_relation_nb_components(r) == k, "wrong number of parts");
  osl_relation_t *none = NULL; osl_relation_remove_part(&none, other); CHECK(none == NULL, "parts appeared"); osl_relation_remove_part(NULL, other);
  sym_reach("removed");
  osl_relation_free(r); osl_relation_free(other); sym_leak_check(base);
}
// ---- lists of relations
typedef struct { Ref r[16]; int null[16]; int n; } LRef;
static int ids;
static osl_relation_list_t *node(LRef *l, int at, int prec) {
  osl_relation_t *r = part(&l->r[at], "l", prec, sym_param("norows", 0) && at % 2 == (int)sym_param("norows", 0) - 1 ? 0 : 1, 2); l->null[at] = 0;
  osl_relation_list_t *n = osl_relation_list_node(r);
  CHECK(n && n->elt != r && n->next == NULL, "a node holds a copy"); SAME(n->elt, &l->r[at], "relation of a node");
  osl_relation_free(r);
  return n;
}
static void samelist(const osl_relation_list_t *l, const LRef *f) {
  size_t cnt = 0;
  const osl_relation_list_t *p = l;
  for (int i = 0; i < f->n; i++, p = p->next) { CHECK(p != NULL, "list too short"); if (f->null[i]) CHECK(p->elt == NULL, "element of a list"); else { SAME(p->elt, &f->r[i], "element of a list"); CHECK(p->elt->next == NULL, "element of a list gained parts"); cnt++; } }
  CHECK(p == NULL, "list too long");
  CHECK(osl_relation_list_count(l) == cnt, "wrong count");
}
static osl_relation_list_t *mklist(LRef *f, int n, int prec, int nulls) {
  osl_relation_list_t *l = NULL, **e = &l; f->n = n;
  for (int i = 0; i < n; i++) { if (nulls && sym_pick("null", 2)) { *e = osl_relation_list_malloc(); f->null[i] = 1; } else *e = node(f, i, prec); e = &(*e)->next; }
  return l;
}
void h_list_seq(void) {
  int prec = (int)sym_param("prec", SP), steps = (int)sym_param("steps", 3);
  long base = sym_heap_live();
  LRef f; osl_relation_list_t *l = mklist(&f, (int)sym_param("start", 1), prec, (int)sym_param("nulls", 0));
  for (int k = 0; k < steps; k++) {
    int op = sym_pick("op", 9);
    if (op == 0 && f.n < 12) { for (int i = f.n; i > 0; i--) f.r[i] = f.r[i - 1], f.null[i] = f.null[i - 1]; osl_relation_list_t *n = node(&f, 0, prec); f.n++; osl_relation_list_push(&l, n); }
    else if (op == 1) { osl_relation_list_t *t = osl_relation_list_pop(&l); if (!f.n) CHECK(t == NULL, "popped from an empty list"); else { CHECK(t && t->next == NULL, "a popped element is detached"); if (f.null[0]) CHECK(t->elt == NULL, "popped element"); else SAME(t->elt, &f.r[0], "popped element"); for (int i = 0; i + 1 < f.n; i++) f.r[i] = f.r[i + 1], f.null[i] = f.null[i + 1]; f.n--; } osl_relation_list_free(t); }
    else if (op == 2 && f.n < 12) { osl_relation_list_dup(&l); if (f.n) { for (int i = f.n; i > 0; i--) f.r[i] = f.r[i - 1], f.null[i] = f.null[i - 1]; f.n++; CHECK(l && l->next && (f.null[0] || l->elt != l->next->elt), "a duplicate is a copy"); } }
    else if (op == 3) { osl_relation_list_drop(&l); if (f.n) { for (int i = 0; i + 1 < f.n; i++) f.r[i] = f.r[i + 1], f.null[i] = f.null[i + 1]; f.n--; } }
    else if (op == 4) { osl_relation_list_destroy(&l); CHECK(l == NULL, "a destroyed list is empty"); f.n = 0; }
    else if (op == 5 && f.n < 11) { LRef g; osl_relation_list_t *m = mklist(&g, 2, prec, 0); osl_relation_list_add(&l, m); for (int i = 0; i < 2; i++) f.r[f.n] = g.r[i], f.null[f.n] = 0, f.n++; }
    else if (op == 6 && f.n < 11) { LRef g; osl_relation_list_t *m = mklist(&g, 1, prec, 0); sym_freeze(); osl_relation_list_t *c = osl_relation_list_concat(l, m); sym_unchanged("concatenation changed its operands"); sym_thaw();
      samelist(l, &f); samelist(m, &g); osl_relation_list_free(l); osl_relation_list_free(m); l = c; f.r[f.n] = g.r[0]; f.null[f.n] = 0; f.n++; }
    else if (op == 7) { osl_relation_list_t *c = osl_relation_list_clone(l); samelist(c, &f); for (osl_relation_list_t *p = c; p; p = p->next) if (p->elt && p->elt->nb_rows) osl_int_set_si(prec, &p->elt->m[0][1], 5); samelist(l, &f); osl_relation_list_free(c); }
    else if (op == 8 && f.n < 6) { sym_freeze(); osl_relation_list_t *c = osl_relation_list_concat(l, l); sym_unchanged("concatenation changed its operands"); sym_thaw(); samelist(l, &f); osl_relation_list_free(l); l = c; for (int i = 0; i < f.n; i++) f.r[f.n + i] = f.r[i], f.null[f.n + i] = f.null[i]; f.n *= 2; }
    samelist(l, &f);
  }
  sym_reach("sequence");
  osl_relation_list_free(l); sym_leak_check(base);
}
// filtering by any kind, counting with absent elements
void h_list_filter(void) {
  int prec = (int)sym_param("prec", SP), n = (int)sym_param("n", 3);
  long base = sym_heap_live();
  LRef f, g; osl_relation_list_t *l = mklist(&f, n, prec, (int)sym_param("nulls", 1));
  if (sym_param("last", 0)) { int i = 0; for (osl_relation_list_t *p = l; p; p = p->next, i++) if (p->elt && i + 1 < n) p->elt->type = f.r[i].type = i % 3 ? OSL_TYPE_READ : OSL_TYPE_DOMAIN; }   // only the last element has any type
  samelist(l, &f);
  int t = sym_int("filter", INT_MIN, INT_MAX);
  sym_freeze();
  osl_relation_list_t *c = osl_relation_list_filter(l, t);
  sym_unchanged("filtering changed the list"); sym_thaw();
  g.n = 0;
  for (int i = 0; i < n; i++) if (!f.null[i]) {
    int ty = f.r[i].type, keep;
    if (t == OSL_TYPE_ACCESS) keep = ty == OSL_TYPE_ACCESS || ty == OSL_TYPE_READ || ty == OSL_TYPE_WRITE || ty == OSL_TYPE_MAY_WRITE; else keep = ty == t;
    if (keep) { g.r[g.n] = f.r[i]; g.null[g.n] = 0; g.n++; sym_reach("kept"); }
  }
  samelist(c, &g);
  osl_relation_list_free(c); samelist(l, &f);
  // set the type of a list
  int nt = sym_int("newtype", INT_MIN, INT_MAX);
  for (osl_relation_list_t *p = l; p; p = p->next) if (p->elt) { Ref x; p->elt->next = part(&x, "x", prec, 1, 2); }
  osl_relation_list_set_type(l, nt);
  for (osl_relation_list_t *p = l; p; p = p->next) if (p->elt) { CHECK(p->elt->type == nt && p->elt->next->type == nt, "setting the type of a list misses a part"); osl_relation_free(p->elt->next); p->elt->next = NULL; }
  for (int i = 0; i < n; i++) f.r[i].type = nt;
  samelist(l, &f);
  osl_relation_list_free(l); sym_leak_check(base);
}
// ---- P14: extension of the outputs
void h_extend(void) {
  int prec = (int)sym_param("prec", SP), k = (int)sym_param("parts", 2), mixed = (int)sym_param("mixed", 0), last = (int)sym_param("last", 0);   // last: only the last part has any shape
  long base = sym_heap_live();
  Ref f[MAXP]; osl_relation_t *r = NULL, **e = &r;
  for (int i = 0; i < k; i++) {
    int fix = last && i + 1 < k, out = fix ? i % 3 : sym_pick("outs", 3), rest = (int)sym_param("rest", 1) + i % 2, rows = fix ? i % 2 : sym_pick("rows", 3);
    *e = part(&f[i], "r", mixed && i ? precs[i % 3] : prec, rows, out + rest + 2);
    (*e)->nb_output_dims = f[i].out = out; e = &(*e)->next;
  }
  int dim = sym_int("dim", k ? INT_MIN : -2, (int)sym_param("dmax", 4)), ok = 1;
  for (int i = 0; i < k; i++) ok &= dim >= f[i].out;
  if (ok) { sym_exit_ok(0); dim = (int)sym_concrete(dim); } else { sym_exit_ok(1); sym_reach("refused"); }
  sym_freeze();
  osl_relation_t *x = osl_relation_extend_output(r, dim);
  sym_exit_ok(0);
  CHECK(ok, "outputs were dropped");
  sym_unchanged("extending changed its input"); sym_thaw();
  osl_relation_t *p = x;
  for (int q = 0; q < k; q++, p = p->next) {
    Ref g = f[q]; int add = dim - g.out; g.out = dim; g.rows += add; g.cols += add;
    for (int i = 0; i < g.rows; i++) for (int j = 0; j < g.cols; j++) {
      int nw = j > f[q].out && j <= f[q].out + add;
      if (i < f[q].rows) g.v[i][j] = nw ? 0 : f[q].v[i][j > f[q].out ? j - add : j];
      else g.v[i][j] = 0;
    }
    CHECK(p != NULL, "parts were lost"); SHAPE(p, &g, "extended part"); ATTR(p, &g, "extended part");
    // the new rows: each is an equality with one non-zero entry, on a new dimension, each new dimension once
    int bad = 0;
    for (int i = 0; i < f[q].rows; i++) for (int j = 0; j < g.cols; j++) bad |= val(g.prec, p->m[i][j]) != g.v[i][j];
    CHECK(!bad, "an existing constraint changed");
    for (int d = 0; d < add; d++) {
      int seen = 0, other = 0;
      for (int i = f[q].rows; i < g.rows; i++) { int on = val(g.prec, p->m[i][f[q].out + 1 + d]) != 0; seen += on; for (int j = 0; j < g.cols; j++) if (j != f[q].out + 1 + d) other += on & (val(g.prec, p->m[i][j]) != 0); }
      CHECK(seen == 1 && !other, "a new dimension is not fixed to zero by exactly one equality");
    }
  }
  CHECK(p == NULL, "parts appeared");
  sym_reach("extended");
  osl_relation_free(x); osl_relation_free(r); sym_leak_check(base);
}
void h_normalize(void) {
  int prec = (int)sym_param("prec", SP), n = (int)sym_param("n", 3);
  long base = sym_heap_live();
  static Ref f[11][2], d[11], acc; int parts[11], max = 0, last = (int)sym_param("last", 0), without = sym_pick("without", n + 2) - 1;   // one statement without a domain, or (n) all of them
  osl_scop_t *s = osl_scop_malloc(); osl_statement_t **e = &s->statement;
  for (int i = 0; i < n; i++) {
    osl_statement_t *t = *e = osl_statement_malloc(); e = &t->next;
    int fix = last && i + 1 < n; parts[i] = fix ? 1 + i % 2 : sym_pick("parts", 3);
    int out = fix ? i % 2 : parts[i] ? sym_pick("out", (int)sym_param("maxout", 3)) : 0; if (out > max) max = out;
    osl_relation_t **q = &t->scattering;
    for (int k = 0; k < parts[i]; k++) { *q = part(&f[i][k], "s", prec, 1, out + 3); (*q)->nb_output_dims = f[i][k].out = out; q = &(*q)->next; }
    if (i != without && without != n) t->domain = part(&d[i], "d", prec, 1, 3);
    if (i == without) { osl_relation_t *a = part(&acc, "acc", prec, 1, 3); t->access = osl_relation_list_node(a); osl_relation_free(a); }
  }
  osl_scop_normalize_scattering(s);
  osl_statement_t *t = s->statement;
  for (int i = 0; i < n; i++, t = t->next) {
    CHECK(t != NULL, "statements were lost"); if (i != without && without != n) SAME(t->domain, &d[i], "domain"); else CHECK(t->domain == NULL, "a domain appeared");
    if (i == without) { CHECK(t->access && !t->access->next, "access lost"); SAME(t->access->elt, &acc, "access"); } else CHECK(t->access == NULL, "accesses appeared");
    osl_relation_t *p = t->scattering;
    for (int k = 0; k < parts[i]; k++, p = p->next) {
      Ref *a = &f[i][k]; int add = max - a->out;
      CHECK(p != NULL, "parts were lost"); CHECK(p->nb_output_dims == max, "not the common number of dimensions");
      CHECK(p->nb_rows == a->rows + add && p->nb_columns == a->cols + add && p->type == a->type && p->nb_input_dims == a->in && p->nb_local_dims == a->loc && p->nb_parameters == a->par && p->precision == prec, "normalised part: wrong sizes or dimensions");
      int bad = 0;
      for (int j = 0; j < a->cols; j++) bad |= val(prec, p->m[0][j > a->out ? j + add : j]) != a->v[0][j];
      for (int j = a->out + 1; j <= a->out + add; j++) bad |= val(prec, p->m[0][j]) != 0;
      for (int x = 0; x < add; x++) { int nz = 0, on = 0; for (int y = 0; y < add; y++) on += val(prec, p->m[1 + y][a->out + 1 + x]) != 0; for (int j = 0; j < p->nb_columns; j++) nz += val(prec, p->m[1 + x][j]) != 0; bad |= nz != 1 || on != 1; }
      CHECK(!bad, "normalised part: wrong coefficients");
    }
    CHECK(p == NULL, "parts appeared");
  }
  CHECK(t == NULL, "statements appeared");
  osl_scop_normalize_scattering(NULL);
  sym_reach("normalised");
  osl_scop_free(s); sym_leak_check(base);
}
// ---- P09: precision of relations
void h_rel_prec(void) {
  int k = (int)sym_param("parts", 2), pa = (int)sym_param("from", SP), pb = (int)sym_param("to", DP), same = (int)sym_param("same", 0), big = (int)sym_param("big", 0);
  long base = sym_heap_live();
  Ref f[MAXP], g[MAXP]; osl_relation_t *r = NULL, **e = &r, *s = NULL;
  for (int i = 0; i < k; i++) { *e = part(&f[i], "r", pa, (int)sym_param("rows", 1) + i % 2, (int)sym_param("cols", 2)); e = &(*e)->next; }
  int target = pb, ok = 1;
  if (same) { e = &s; for (int i = 0; i < k; i++) { *e = part(&g[i], "s", pb, 1, 2 + i); e = &(*e)->next; } target = pa == MP || pb == MP ? MP : pa == DP || pb == DP ? DP : SP; }
  for (int i = 0; i < k; i++) for (int a = 0; a < f[i].rows; a++) for (int b = 0; b < f[i].cols; b++) ok &= fits(target, f[i].v[a][b]);
  if (ok) sym_exit_ok(0); else { sym_exit_ok(1); sym_reach("refused"); }
  if (same) { if (sym_param("swap", 0)) osl_relation_set_same_precision(s, r); else osl_relation_set_same_precision(r, s); } else osl_relation_set_precision(target, r);
  sym_exit_ok(0);
  CHECK(ok, "a value that does not fit was converted");
  osl_relation_t *p = r;
  for (int i = 0; i < k; i++, p = p->next) { f[i].prec = target; SAME(p, &f[i], "converted part"); }
  CHECK(p == NULL, "parts appeared");
  if (same) { p = s; for (int i = 0; i < k; i++, p = p->next) { g[i].prec = target; SAME(p, &g[i], "converted part"); } CHECK(p == NULL, "parts appeared");
    osl_relation_set_same_precision(r, NULL); osl_relation_set_same_precision(NULL, r); p = r; for (int i = 0; i < k; i++, p = p->next) SAME(p, &f[i], "part alone"); }
  sym_reach("converted");
  osl_relation_free(r); osl_relation_free(s); sym_leak_check(base);
}
// ---- P22
static int isacc(int t) { return (t == OSL_TYPE_ACCESS) | (t == OSL_TYPE_READ) | (t == OSL_TYPE_WRITE) | (t == OSL_TYPE_MAY_WRITE); }
// the array id of a union of accesses by its definition; *bad when a cell is outside int
static int refid(const Ref *f, int k, int *big) {
  long long id = -1;
  for (int q = 0; q < k; q++) {
    const Ref *a = &f[q]; int rowcount = 0, row = 0;
    if (a->rows < 1 || a->cols < 3) return OSL_UNDEFINED;
    for (int i = 0; i < a->rows; i++) if (a->v[i][1] != 0) { rowcount++; row = i; }
    if (rowcount != 1) return OSL_UNDEFINED;
    int nz = 0;
    for (int j = 0; j < a->cols - 1; j++) if (j != 1) nz |= a->v[row][j] != 0;
    if (nz) return OSL_UNDEFINED;
    long d = (long)a->v[row][1], c = (long)a->v[row][a->cols - 1];
    if (d < INT_MIN || d > INT_MAX || c < INT_MIN || c > INT_MAX) { *big = 1; return OSL_UNDEFINED; }
    if (c % d != 0) return OSL_UNDEFINED;
    long long v = -(long long)(int)c; v /= (int)d;
    if (v <= 0 || v > INT_MAX) return OSL_UNDEFINED;
    if (id != -1 && v != id) return OSL_UNDEFINED;
    id = v;
  }
  return (int)id;
}
void h_array_id(void) {
  int prec = (int)sym_param("prec", SP), k = (int)sym_param("parts", 1), rows = (int)sym_param("rows", 2), cols = (int)sym_param("cols", 4);
  long base = sym_heap_live();
  if (sym_param("pick", 0)) cell_lo = -1000, cell_hi = 1000;
  Ref f[MAXP]; osl_relation_t *r = NULL, **e = &r;
  for (int i = 0; i < k; i++) { *e = part(&f[i], "r", prec, rows, cols); if (i) (*e)->type = f[i].type = f[0].type; e = &(*e)->next; }
  // with "pick", the coefficient of the first output dimension is one of a few constants (the division by it stays simple)
  static const long dv[5] = {0, 1, -1, -3, 2};
  if (sym_param("pick", 0)) for (int i = 0; i < k; i++) for (int a = 0; a < rows; a++) { f[i].v[a][1] = dv[sym_pick("d", 5)]; osl_relation_t *q = r; for (int x = 0; x < i; x++) q = q->next; setcell(q, a, 1, f[i].v[a][1]); }
  // with "used", the same relation was first the access to array 5 and was asked for it
  if (sym_param("used", 0)) {
    osl_relation_t *q = r;
    for (int i = 0; i < k; i++, q = q->next) { q->type = OSL_TYPE_READ; for (int a = 0; a < rows; a++) for (int c = 0; c < cols; c++) setcell(q, a, c, a == rows - 1 ? c == 1 ? -1 : c == cols - 1 ? 5 : 0 : c == 1 ? 0 : c + a); }
    CHECK(osl_relation_get_array_id(r) == 5 && osl_relation_is_access(r), "wrong array identifier");
    q = r; for (int i = 0; i < k; i++, q = q->next) { q->type = f[i].type; for (int a = 0; a < rows; a++) for (int c = 0; c < cols; c++) setcell(q, a, c, f[i].v[a][c]); } }
  int big = 0, want = OSL_UNDEFINED, acc = isacc(f[0].type);
  if (k && acc) want = refid(f, k, &big);
  sym_exit_ok(big ? 1 : 0);       // a value beyond int stops the library, or is reported as undefined
  sym_freeze();
  int id = osl_relation_get_array_id(r), is = osl_relation_is_access(r) != 0;
  sym_exit_ok(0);
  if (!big) CHECK(id == want, "wrong array identifier");
  CHECK(is == (k && acc), "wrong access test");
  sym_unchanged("looking at a relation changed it"); sym_thaw();
  if (want > 0) sym_reach("identifier"); else sym_reach("undefined");
  osl_relation_free(r); sym_leak_check(base);
}
static int imax(int a, int b) { int g = -(a > b); return (a & g) | (b & ~g); }
static void refattr(const Ref *f, int k, int *o) {
  for (int i = 0; i < k; i++) {
    const Ref *a = &f[i]; int t = isacc(a->type) ? OSL_TYPE_ACCESS : a->type, big = 0;
    int it = t == OSL_TYPE_CONTEXT ? 0 : t == OSL_TYPE_DOMAIN ? a->out : a->in, sc = t == OSL_TYPE_CONTEXT || t == OSL_TYPE_DOMAIN || t == OSL_TYPE_ACCESS ? 0 : a->out;
    o[0] = imax(o[0], a->par); o[1] = imax(o[1], it); o[2] = imax(o[2], sc); o[3] = imax(o[3], a->loc);
    o[4] = imax(o[4], t == OSL_TYPE_ACCESS ? -1 : 0);
  }
}
static int refmaxid(const Ref *f, int k) { int m = OSL_UNDEFINED, big; for (int i = 0; i < k; i++) if (isacc(f[i].type)) m = imax(m, refid(f + i, k - i, &big)); return m; }
void h_attributes(void) {
  int prec = (int)sym_param("prec", SP), k = (int)sym_param("parts", 2), which = (int)sym_param("which", 0), rowset = (int)sym_param("rowset", 111);   // a digit of rowset: the rows of a part
  long base = sym_heap_live();
  Ref f[MAXP]; osl_relation_t *r = NULL, **e = &r;
  for (int i = 0; i < k; i++) {
    int rows = rowset / (i == 0 ? 1 : i == 1 ? 10 : 100) % 10;
    *e = part(&f[i], "r", prec, rows, 4);
    f[i].type = (*e)->type = OSL_TYPE_CONTEXT + sym_pick("type", 8);
    if (f[i].type == 9) f[i].type = (*e)->type = OSL_UNDEFINED;
    if (i && isacc(f[0].type) != isacc(f[i].type)) sym_assume(0);
    // only the attribute under study is symbolic, the others are constants that differ
    if (which != 0) f[i].par = (*e)->nb_parameters = 3 + i; if (which != 1) { f[i].in = (*e)->nb_input_dims = 2 - i; } if (which != 1 && which != 2) f[i].out = (*e)->nb_output_dims = 1 + 2 * i; if (which != 3) f[i].loc = (*e)->nb_local_dims = 1;
    for (int a = 0; a < rows; a++) for (int b = 0; b < 4; b++) { if (b == 3 && which == 4 && a == rows - 1) sym_assume(f[i].v[a][b] >= -99 & f[i].v[a][b] <= 99); else setcell(*e, a, b, f[i].v[a][b] = b == 1 ? -(a == rows - 1) : b == 3 ? 2 : 0); }
    e = &(*e)->next;
  }
  int o[5], w[5];
  for (int i = 0; i < 5; i++) o[i] = w[i] = i == which ? sym_int("start", INT_MIN, INT_MAX) : -1;
  refattr(f, k, w); if (k) w[4] = imax(w[4], refmaxid(f, k));
  sym_freeze();
  osl_relation_get_attributes(r, &o[0], &o[1], &o[2], &o[3], &o[4]);
  CHECK(o[0] == w[0], "wrong number of parameters"); CHECK(o[1] == w[1], "wrong number of iterators"); CHECK(o[2] == w[2], "wrong number of scattering dimensions"); CHECK(o[3] == w[3], "wrong number of local dimensions"); CHECK(o[4] == w[4], "wrong array identifier");
  sym_unchanged("looking at a relation changed it"); sym_thaw();
  sym_reach("attributes");
  // setting attributes reaches every part and nothing else
  int a = sym_int("a", INT_MIN, INT_MAX), b = sym_int("b", INT_MIN, INT_MAX), c = sym_int("c", INT_MIN, INT_MAX), d = sym_int("d", INT_MIN, INT_MAX), t = sym_int("t", INT_MIN, INT_MAX), one = sym_pick("one", 2);
  if (one) osl_relation_set_attributes_one(r, a, b, c, d); else osl_relation_set_attributes(r, a, b, c, d);
  osl_relation_t *p = r;
  for (int i = 0; i < k; i++, p = p->next) { if (!one || i == 0) f[i].out = a, f[i].in = b, f[i].loc = c, f[i].par = d; SAME(p, &f[i], "relation with new attributes"); }
  osl_relation_set_type(r, t); p = r;
  for (int i = 0; i < k; i++, p = p->next) { f[i].type = t; SAME(p, &f[i], "relation with a new type"); }
  osl_relation_free(r); sym_leak_check(base);
}
