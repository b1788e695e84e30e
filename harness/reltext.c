// P01 (relations as text), P23 (printing changes nothing)
#include "wf.h"
static char X[TMAX], Y[TMAX];
static Wf w;
static void setup(void) {
  w.type = types[sym_param("type", 1)]; w.prec = (int)sym_param("prec", DP); w.parts = (int)sym_param("parts", 1);
  int shape = (int)sym_param("shape", 1), at = (int)sym_param("at", -1), span = (int)sym_param("span", 1), wide = (int)sym_param("wide", 0), tall = (int)sym_param("tall", 0);
  wf_shape(&w, shape);
  if (wide) for (int k = 0; k < w.parts; k++) w.p[k].par = wide;
  if (tall) for (int k = 0; k < w.parts; k++) w.p[k].rows = tall;
  wf_fill(&w, (int)sym_param("seed", 3) + shape);
  int simple = (int)sym_param("simple", 0);
  if (simple) for (int k = 0; k < w.parts; k++) if (w.p[k].rows && w.p[k].out && !isacc(w.type)) { int i = w.p[k].rows - 1; for (int j = 0; j <= w.p[k].out; j++) w.p[k].v[i][j] = j == 1 ? simple : 0; }
  long lo = sym_param("lo", LONG_MIN), hi = sym_param("hi", LONG_MAX);
  int n = wf_cells(&w);
  if (at >= 0 && n) for (int k = 0; k < span; k++) {
    I128 v = sym_i64("v", lo, hi); if (sym_param("big", 0)) v = v * ((I128)1 << 40) + 12345;
    *wf_cell(&w, (at + k) % n) = v; }
}
static void whole(int with_type) {
  int stream = (int)sym_param("stream", 0), names = (int)sym_param("names", 0);
  long base = sym_heap_live();
  setup();
  osl_relation_t *r = wf_make(&w);
  osl_names_t *nm = names ? wf_names(names) : NULL;
  char *text; FILE *f = NULL;
  sym_freeze();
  if (stream && with_type) { f = sym_fmem_new(); if (nm) osl_relation_pprint(f, r, nm); else osl_relation_print(f, r); text = sym_fmem_text(f); }
  else text = !with_type ? osl_relation_spprint_polylib(r, nm) : nm ? osl_relation_spprint(r, nm) : osl_relation_sprint(r);
  sym_unchanged("printing changed the relation or the names"); sym_thaw();
  CHECK(wf_sameparts(r, &w), "printing changed the relation");
  // the text, comments apart, is the one the format prescribes
  if (!sym_param("big", 0)) {
    L = 0; wf_text(&w, with_type, NULL); plain(T, X); plain(text, Y);
    CHECK(same_text(X, Y), "not the text of this relation");
  }
  // and it is read back, the rest of the input left alone
  L = 0; put(text); int mid = L; put("# after\nDOMAIN\n 9 9\n");
  if (f) sym_fmem_close(f); else free(text);
  osl_relation_t *b; int prec2 = w.prec;
  char *p = T;
  if (stream && with_type) { f = sym_fmem_open(T); b = osl_relation_pread(f, prec2); long pos = sym_fmem_pos(f); CHECK(pos == mid, "wrong position in the stream"); fclose(f); }
  else { b = with_type ? osl_relation_psread(&p, prec2) : osl_relation_psread_polylib(&p, prec2); CHECK(p <= T + mid && skip_from(T, (int)(p - T)) == skip_from(T, mid), "wrong position in the text"); }
  if (!with_type) osl_relation_set_type(b, w.type);
  if (w.type == OSL_TYPE_ACCESS) osl_relation_set_type(b, OSL_TYPE_ACCESS);
  CHECK(wf_sameparts(b, &w), "not the relation that was written");
  sym_reach("round trip");
  osl_relation_free(r); osl_relation_free(b); osl_names_free(nm); sym_leak_check(base);
}
void h_rel_text(void) { whole(1); }
void h_rel_polylib(void) { whole(0); }
// a text laid out in any legal way is read as what it says; the current precision comes from the environment
static void gap(void) {
  static int n; int k = n++ < 3 ? sym_pick("gap", 4) : (int)((n * 7) % 4);
  put(k == 0 ? "" : k == 1 ? "\n \t\n" : k == 2 ? "# 1 2 3\n" : "  \n#\n\n  ");
}
void h_rel_read(void) {
  int stream = (int)sym_param("stream", 0), env = (int)sym_param("env", 0), typed = !sym_param("untyped", 0);
  long base = sym_heap_live();
  setup();
  wf_counted = (int)sym_param("counted", 0);
  L = 0; gap(); wf_text(&w, typed, gap); int mid = L; put(sym_pick("tail", 2) ? "\n#\nREAD\n" : "");
  if (env) { sym_setenv_precision(w.prec == SP ? "32" : w.prec == DP ? "64" : "0"); }
  osl_relation_t *b; char *p = T;
  if (stream) { FILE *f = sym_fmem_open(T); b = env ? osl_relation_read(f) : osl_relation_pread(f, w.prec); CHECK(sym_fmem_pos(f) == mid, "wrong position in the stream"); fclose(f); }
  else { b = !typed ? (env ? osl_relation_sread_polylib(&p) : osl_relation_psread_polylib(&p, w.prec)) : env ? osl_relation_sread(&p) : osl_relation_psread(&p, w.prec); CHECK(skip_from(T, (int)(p - T)) == skip_from(T, mid), "wrong position in the text"); }
  if (!typed) { for (osl_relation_t *q = b; q; q = q->next) CHECK(q->type == OSL_UNDEFINED, "a type out of nowhere"); osl_relation_set_type(b, w.type); }
  CHECK(wf_sameparts(b, &w), "not the relation that was written");
  sym_reach("read");
  osl_relation_free(b); sym_leak_check(base);
}
// no relation
void h_rel_none(void) {
  long base = sym_heap_live();
  char *s = osl_relation_sprint(NULL); CHECK(s && plain(s, X) == 0, "text for no relation"); free(s);
  FILE *f = sym_fmem_new(); osl_relation_print(f, NULL); CHECK(plain(sym_fmem_text(f), X) == 0, "text for no relation"); sym_fmem_close(f);
  sym_reach("none"); sym_leak_check(base);
}
