// P10 (row and column edits), P11 (vectors)
#include "rel.h"
enum { BLANKROW, BLANKCOL, INSVEC, INSCON, REPVEC, REPCON, SWAP, REMROW, REMCOL, INSCOLS };
void h_edit(void) {
  int op = (int)sym_param("op", 0), prec = (int)sym_param("prec", SP), rows = (int)sym_param("rows", 2), cols = (int)sym_param("cols", 3), n = (int)sym_param("n", 1), rn = (int)sym_param("next", 1);
  long base = sym_heap_live();
  Ref a, b, nx, e;
  osl_relation_t *r = part(&a, "a", prec, rows, cols);
  if (rn) r->next = part(&nx, "nx", prec, 1, 2);
  osl_relation_t *s = NULL; I128 v[MAXC]; osl_vector_t *w = NULL;
  if (op == INSVEC || op == REPVEC) w = vec(v, "v", prec, cols);
  int same = (int)sym_param("same", 0);   // the operand is the edited relation itself
  if (same) { s = r; b = a; n = op == INSCOLS ? cols : rows; }
  else if (op == INSCON || op == REPCON) s = part(&b, "b", prec, n, cols);
  else if (op == INSCOLS) s = part(&b, "b", prec, rows, n);
  int lo = 0, hi = rows, p2 = 0;
  if (op == REPVEC || op == SWAP || op == REMROW) hi = rows - 1;
  if (op == REPCON) hi = rows - n;
  if (op == BLANKCOL || op == INSCOLS) hi = cols;
  if (op == REMCOL) hi = cols - 1;
  if (op == BLANKROW || op == INSVEC || op == INSCON) lo = -1;
  int p;
  if (op == SWAP) {
    p = sym_int("pos", INT_MIN, INT_MAX); p2 = sym_int("pos2", INT_MIN, INT_MAX);
    okpos = p == p2 || (p >= lo && p <= hi && p2 >= lo && p2 <= hi);
    if (okpos) { sym_exit_ok(0); if (p != p2) { p = (int)sym_concrete(p); p2 = (int)sym_concrete(p2); } } else { sym_exit_ok(1); sym_reach("refused"); }
  } else p = position("pos", lo, hi);
  switch (op) {
    case BLANKROW: osl_relation_insert_blank_row(r, p); break;
    case BLANKCOL: osl_relation_insert_blank_column(r, p); break;
    case INSVEC: osl_relation_insert_vector(r, w, p); break;
    case INSCON: osl_relation_insert_constraints(r, s, p); break;
    case REPVEC: osl_relation_replace_vector(r, w, p); break;
    case REPCON: osl_relation_replace_constraints(r, s, p); break;
    case SWAP: osl_relation_swap_constraints(r, p, p2); break;
    case REMROW: osl_relation_remove_row(r, p); break;
    case REMCOL: osl_relation_remove_column(r, p); break;
    case INSCOLS: osl_relation_insert_columns(r, s, p); break;
  }
  ACCEPTED();
  if (p == -1 && lo == -1) { p = rows; sym_reach("append"); }
  e = a;
  switch (op) {
    case BLANKROW: case INSVEC: case INSCON: {
      int k = op == INSCON ? n : 1; e.rows = rows + k;
      for (int i = 0; i < e.rows; i++) for (int j = 0; j < cols; j++)
        e.v[i][j] = i < p ? a.v[i][j] : i >= p + k ? a.v[i - k][j] : op == BLANKROW ? 0 : op == INSVEC ? v[j] : b.v[i - p][j];
      break; }
    case BLANKCOL: case INSCOLS: {
      int k = op == INSCOLS ? n : 1; e.cols = cols + k;
      for (int i = 0; i < rows; i++) for (int j = 0; j < e.cols; j++)
        e.v[i][j] = j < p ? a.v[i][j] : j >= p + k ? a.v[i][j - k] : op == BLANKCOL ? 0 : b.v[i][j - p];
      break; }
    case REPVEC: for (int j = 0; j < cols; j++) e.v[p][j] = v[j]; break;
    case REPCON: for (int i = 0; i < n; i++) for (int j = 0; j < cols; j++) e.v[p + i][j] = b.v[i][j]; break;
    case SWAP: if (p != p2) for (int j = 0; j < cols; j++) { e.v[p][j] = a.v[p2][j]; e.v[p2][j] = a.v[p][j]; } break;
    case REMROW: e.rows = rows - 1; for (int i = p; i < e.rows; i++) for (int j = 0; j < cols; j++) e.v[i][j] = a.v[i + 1][j]; break;
    case REMCOL: e.cols = cols - 1; for (int i = 0; i < rows; i++) for (int j = p; j < e.cols; j++) e.v[i][j] = a.v[i][j + 1]; break;
  }
  SHAPE(r, &e, "edited relation"); CELLS(r, &e, "edited relation"); ATTR(r, &e, "edited relation");
  if (rn) { SAME(r->next, &nx, "next part"); CHECK(r->next->next == NULL, "parts appeared"); } else CHECK(r->next == NULL, "parts appeared");
  if (same) s = NULL;
  if (s) { SAME(s, &b, "operand"); CHECK(s->next == NULL, "operand linked"); }
  if (w) CHECK(samevec(w, v, prec, cols), "the vector operand changed");
  if (op == SWAP || sym_param("twice", 0)) {   // the edited relation is a working one
    osl_relation_t *c = osl_relation_clone(r); CHECK(osl_relation_equal(c, r), "the edited relation is not usable"); osl_relation_free(c);
  }
  osl_relation_free(r); osl_relation_free(s); osl_vector_free(w);
  sym_leak_check(base);
}
// sizes or precisions that do not fit are refused; absent operands change nothing
void h_edit_bad(void) {
  int op = (int)sym_param("op", 0), bad = (int)sym_param("bad", 0), prec = (int)sym_param("prec", SP), p2 = prec == SP ? DP : prec == DP ? MP : SP;
  int dc = sym_pick("dc", 5) - 2, dr = sym_pick("dr", 4) - 1, other = sym_pick("other", 2);
  Ref a, b; I128 v[MAXC];
  osl_relation_t *r = part(&a, "a", prec, 2, 3), *s = NULL; osl_vector_t *w = NULL;
  int q = other ? p2 : prec, ok;
  int p = 0;
  if (op == INSVEC || op == REPVEC) { w = vec(v, "v", q, 3 + dc); ok = dc == 0 && q == prec; }
  else if (op == INSCON || op == REPCON) { s = part(&b, "b", q, 2 + dr, 3 + dc); ok = dc == 0 && q == prec && (op == INSCON || dr <= 0); }
  else { s = part(&b, "b", q, 2 + dr, 3 + dc); ok = dr == 0 && q == prec; op = INSCOLS; }
  if (ok) sym_exit_ok(0); else { sym_exit_ok(1); sym_reach("refused"); }
  switch (op) {
    case INSVEC: osl_relation_insert_vector(r, w, p); break;
    case REPVEC: osl_relation_replace_vector(r, w, p); break;
    case INSCON: osl_relation_insert_constraints(r, s, p); break;
    case REPCON: osl_relation_replace_constraints(r, s, p); break;
    case INSCOLS: osl_relation_insert_columns(r, s, p); break;
  }
  sym_exit_ok(0);
  CHECK(ok, "an operand of the wrong size or precision was accepted");
  sym_reach("accepted");
  // absent operands: documented as no change
  Ref c; osl_relation_t *t = part(&c, "c", prec, 2, 3);
  osl_relation_insert_constraints(t, NULL, p); osl_relation_insert_vector(t, NULL, p); osl_relation_insert_columns(t, NULL, p);
  osl_relation_insert_constraints(NULL, t, p); osl_relation_insert_columns(NULL, t, p);
  osl_relation_insert_blank_row(NULL, p); osl_relation_insert_blank_column(NULL, p); osl_relation_remove_row(NULL, p); osl_relation_remove_column(NULL, p); osl_relation_swap_constraints(NULL, 0, 1);
  SAME(t, &c, "relation edited with an absent operand");
}
// concatenation of rows
void h_concat(void) {
  int prec = (int)sym_param("prec", SP), n = (int)sym_param("n", 1), rows = (int)sym_param("rows", 2), cols = (int)sym_param("cols", 3), isv = (int)sym_param("vec", 0), nx = (int)sym_param("next", 0), null = (int)sym_param("null", 0), bad = (int)sym_param("bad", 0);
  long base = sym_heap_live();
  Ref a, b, c, d, e; I128 v[MAXC]; osl_relation_t *r = NULL, *s = NULL; osl_vector_t *w = NULL;
  if (null != 1) { r = part(&a, "a", prec, rows, cols); if (nx) r->next = part(&c, "c", prec, 1, 2); }
  int same = (int)sym_param("same", 0);
  if (same) { s = r; b = a; d = c; n = rows; }
  else if (null != 2) { if (isv) { n = 1; w = vec(v, "v", prec, cols + bad); } else { s = part(&b, "b", prec, n, cols + bad); if (nx) s->next = part(&d, "d", prec, 2, 2); } }
  if (bad && !null) { sym_exit_ok(1); sym_reach("refused"); }
  sym_freeze();
  osl_relation_t *t = isv ? osl_relation_concat_vector(r, w) : osl_relation_concat_constraints(r, s);
  sym_exit_ok(0);
  CHECK(!bad || null, "operands of different sizes were concatenated");
  sym_unchanged("concatenation changed an operand"); sym_thaw();
  if (null == 1 && !isv) { SAME(t, &b, "concatenation with nothing"); if (nx) SAME(t->next, &d, "second part"); }
  else if (null == 2) { SAME(t, &a, "concatenation with nothing"); if (nx) SAME(t->next, &c, "second part"); }
  else {
    e = a; if (null == 1) { e.rows = 0; e.cols = cols + bad; e.prec = prec; }
    for (int i = 0; i < n; i++) for (int j = 0; j < cols + bad; j++) e.v[e.rows + i][j] = isv ? v[j] : b.v[i][j];
    e.rows += n;
    SHAPE(t, &e, "concatenation"); CELLS(t, &e, "concatenation");
    CHECK(t->next == NULL, "a concatenation has one part");
  }
  sym_reach("concat");
  osl_relation_free(t); osl_relation_free(r); if (!same) osl_relation_free(s); osl_vector_free(w);
  sym_leak_check(base);
}
// a sequence of edits on one relation, against the reference matrix
void h_edit_seq(void) {
  int prec = (int)sym_param("prec", SP), steps = (int)sym_param("steps", 3);
  long base = sym_heap_live();
  Ref a, e; osl_relation_t *r = part(&a, "a", prec, (int)sym_param("rows", 1), (int)sym_param("cols", 2));
  for (int k = 0; k < steps; k++) {
    int op = sym_pick("op", 5); e = a;
    if (op == 0) { if (e.rows >= MAXR - 1) continue; int p = sym_pick("p0", e.rows + 1); I128 v[MAXC]; osl_vector_t *w = vec(v, "v", prec, e.cols); osl_relation_insert_vector(r, w, p); osl_vector_free(w);
      for (int i = e.rows; i > p; i--) for (int j = 0; j < e.cols; j++) e.v[i][j] = e.v[i - 1][j]; for (int j = 0; j < e.cols; j++) e.v[p][j] = v[j]; e.rows++; }
    else if (op == 1) { if (!e.rows) continue; int p = sym_pick("p1", e.rows); osl_relation_remove_row(r, p); for (int i = p; i + 1 < e.rows; i++) for (int j = 0; j < e.cols; j++) e.v[i][j] = e.v[i + 1][j]; e.rows--; }
    else if (op == 2) { if (e.cols >= MAXC - 1) continue; int p = sym_pick("p2", e.cols + 1); osl_relation_insert_blank_column(r, p); for (int i = 0; i < e.rows; i++) { for (int j = e.cols; j > p; j--) e.v[i][j] = e.v[i][j - 1]; e.v[i][p] = 0; } e.cols++; }
    else if (op == 3) { if (!e.cols) continue; int p = sym_pick("p3", e.cols); osl_relation_remove_column(r, p); for (int i = 0; i < e.rows; i++) for (int j = p; j + 1 < e.cols; j++) e.v[i][j] = e.v[i][j + 1]; e.cols--; }
    else { if (e.rows < 2) continue; osl_relation_swap_constraints(r, 0, e.rows - 1); for (int j = 0; j < e.cols; j++) { I128 t = e.v[0][j]; e.v[0][j] = e.v[e.rows - 1][j]; e.v[e.rows - 1][j] = t; } }
    a = e;
    SHAPE(r, &a, "sequence of edits"); CELLS(r, &a, "sequence of edits");
  }
  sym_reach("sequence");
  osl_relation_free(r);
  sym_leak_check(base);
}

// ---- P11
enum { VADD, VSUB, VADDS, VMULS, VTAGI, VTAGE, VEQ, VSCALAR, ROWADD, ROWSUB, FROMVEC };
void h_vector(void) {
  int op = (int)sym_param("op", 0), prec = (int)sym_param("prec", SP), n = (int)sym_param("n", 3);
  long base = sym_heap_live();
  I128 a[MAXC], b[MAXC], e[MAXC]; osl_vector_t *x = vec(a, "a", prec, n), *y = NULL, *z = NULL; osl_relation_t *r = NULL; Ref f, g;
  int s = 0, fit = 1;
  if (op == VADD || op == VSUB || op == VEQ) { if (sym_param("same", 0)) { y = x; for (int i = 0; i < n; i++) b[i] = a[i]; } else y = vec(b, "b", prec, n); }
  if (op == VADDS || op == VMULS) s = sym_int("s", INT_MIN, INT_MAX);
  if (sym_param("fix", 0)) { static const int k[5] = {0, 1, -1, 2, -3}; s = k[sym_pick("k", 5)]; }
  for (int i = 0; i < n; i++) {
    e[i] = a[i];
    if (op == VADD) e[i] = a[i] + b[i]; if (op == VSUB) e[i] = a[i] - b[i];
    if (op == VADDS && i == n - 1) e[i] = a[i] + s; if (op == VMULS) e[i] = a[i] * s;
    fit &= fits(prec, e[i]);
  }
  int res = 0;
  int row = 0, rows = 2;
  if (op == ROWADD || op == ROWSUB) {
    r = part(&f, "r", prec, rows, n); r->next = part(&g, "g", prec, 1, n);
    row = position("row", 0, rows - 1);
    if (okpos) {
      I128 tag = sym_i64("tag", 0, 1);    // of a well-formed row
      f.v[row][0] = tag; setcell(r, row, 0, tag);
      if (tag == 0) f.v[row][0] = a[0];
      for (int i = 1; i < n; i++) { f.v[row][i] = op == ROWADD ? f.v[row][i] + a[i] : f.v[row][i] - a[i]; fit &= fits(prec, f.v[row][i]); }
    }
    if (!okpos) fit = 0;
  }
  if (fit) sym_exit_ok(0); else { sym_exit_ok(1); sym_reach("refused"); }
  if (op != VTAGI && op != VTAGE && !r) sym_freeze();
  switch (op) {
    case VADD: z = osl_vector_add(x, y); break; case VSUB: z = osl_vector_sub(x, y); break;
    case VADDS: z = osl_vector_add_scalar(x, s); break; case VMULS: z = osl_vector_mul_scalar(x, s); break;
    case VTAGI: osl_vector_tag_inequality(x); a[0] = 1; break; case VTAGE: osl_vector_tag_equality(x); a[0] = 0; break;
    case VEQ: res = osl_vector_equal(x, y); break; case VSCALAR: res = osl_vector_is_scalar(x); break;
    case ROWADD: osl_relation_add_vector(r, x, row); break; case ROWSUB: osl_relation_sub_vector(r, x, row); break;
    case FROMVEC: r = osl_relation_from_vector(x); break;
  }
  sym_exit_ok(0);
  CHECK(fit, "a value that does not fit, or a bad row, was accepted");
  if (op != VTAGI && op != VTAGE && op != ROWADD && op != ROWSUB) { sym_unchanged("a vector operation changed its operand"); sym_thaw(); }
  CHECK(samevec(x, a, prec, n), "the vector is not what was requested");
  if (y) CHECK(samevec(y, b, prec, n), "the second operand changed");
  if (z) CHECK(samevec(z, e, prec, n), "the result is not the element-wise one");
  if (op == VEQ) { int eq = 1; for (int i = 0; i < n; i++) eq &= a[i] == b[i]; CHECK((res != 0) == (eq != 0), "wrong comparison"); }
  if (op == VSCALAR) { int eq = 1; for (int i = 0; i + 1 < n; i++) eq &= a[i] == 0; CHECK((res != 0) == (eq != 0), "wrong scalar test"); }
  if (op == ROWADD || op == ROWSUB) { SAME(r, &f, "relation row"); SAME(r->next, &g, "next part"); CHECK(r->next->next == NULL, "parts appeared"); }
  if (op == FROMVEC) { Ref h; h.rows = 1; h.cols = n; h.prec = prec; for (int i = 0; i < n; i++) h.v[0][i] = a[i]; SHAPE(r, &h, "relation from a vector"); CELLS(r, &h, "relation from a vector"); CHECK(r->next == NULL, "parts appeared"); }
  sym_reach("vector");
  osl_vector_free(x); if (y != x) osl_vector_free(y); osl_vector_free(z); osl_relation_free(r);
  sym_leak_check(base);
}
// operands of different size or precision, or too short, or absent
void h_vector_bad(void) {
  int op = (int)sym_param("op", 0), prec = (int)sym_param("prec", SP);
  int n = sym_pick("n", 4), m = sym_pick("m", 4), q = precs[sym_pick("q", 3)], null = sym_pick("null", 3);
  I128 a[MAXC], b[MAXC]; osl_vector_t *x = null == 1 ? NULL : vec(a, "a", prec, n), *y = null == 2 ? NULL : vec(b, "b", q, m), *z = NULL;
  for (int i = 0; x && i < n; i++) sym_assume(a[i] >= -100 & a[i] <= 100);
  for (int i = 0; y && i < m; i++) sym_assume(b[i] >= -100 & b[i] <= 100);
  int ok = 1; Ref f; osl_relation_t *r = NULL;
  switch (op) {
    case VADD: case VSUB: ok = x && y && n == m && prec == q; break;
    case VADDS: ok = x && n >= 2; break;
    case VTAGI: case VTAGE: ok = x && n >= 1; break;
    case VEQ: sym_assume(x && y); break;
    case ROWADD: case ROWSUB: sym_assume(m >= 1); r = part(&f, "r", q, 2, m); for (int i = 0; i < 2; i++) for (int j = 0; j < m; j++) sym_assume(f.v[i][j] >= 0 & f.v[i][j] <= 1); ok = x && n == m && prec == q; break;
  }
  if (ok) sym_exit_ok(0); else { sym_exit_ok(1); sym_reach("refused"); }
  switch (op) {
    case VADD: z = osl_vector_add(x, y); break; case VSUB: z = osl_vector_sub(x, y); break;
    case VADDS: z = osl_vector_add_scalar(x, 1); break;
    case VTAGI: osl_vector_tag_inequality(x); break; case VTAGE: osl_vector_tag_equality(x); break;
    case VEQ: { int e = n == m && prec == q; if (e) for (int i = 0; i < n; i++) e &= a[i] == b[i]; CHECK((osl_vector_equal(x, y) != 0) == (e != 0), "wrong comparison"); break; }
    case ROWADD: osl_relation_add_vector(r, x, 1); break; case ROWSUB: osl_relation_sub_vector(r, x, 0); break;
  }
  sym_exit_ok(0);
  CHECK(ok, "incompatible operands were accepted");
  sym_reach("accepted");
}
