// P17 (scanning), P18 (string collections), P20 (identifier substitution)
#include "sym.h"
#define TMAX 16000
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static char T[TMAX]; static int L;
static void put(const char *s) { while (*s) T[L++] = *s++; T[L] = 0; }
static void putn(char c, int n) { while (n-- > 0) T[L++] = c; T[L] = 0; }
// every text of n characters of the alphabet (shorter ones too, since NUL is in it when asked for)
static void anytext(const char *alphabet, int n) { for (int i = 0; i < n; i++) T[L++] = sym_ch("t", alphabet); T[L] = 0; }
static const char *full(void) { static char s[128]; for (int i = 0; i < 127; i++) s[i] = (char)(i + 1); return s; }   // every ASCII character
static int skip(int p) { for (;;) { while (T[p] && sp(T[p])) p++; if (T[p] != '#') return p; while (T[p] && T[p] != '\n') p++; } }
static int eol(int p) { while (T[p] && T[p] != '\n') p++; return T[p] ? p + 1 : p; }
static int streq(const char *s, int from, int len) { int bad = 0; for (int i = 0; i < len; i++) { if (!s[i] && T[from + i]) return 0; bad |= s[i] != T[from + i]; } return !bad && s[len] == 0; }
// reads one item with both forms and compares with the reference: from, len of the item; -1 when an error is expected, -2 when nothing (NULL)
enum { RINT, RSTR, RLINE, RTAG };
static void read_both(int kind, int from, int len, int value, int stream) {
  char *p = T; FILE *f = NULL; char *s = NULL; int v = 0;
  if (stream) f = sym_fmem_open(T);
  if (len == -1) { sym_exit_ok(1); sym_reach("refused"); } else sym_exit_ok(0);
  if (kind == RINT) v = osl_util_read_int(f, f ? NULL : &p);
  else if (kind == RSTR) s = osl_util_read_string(f, f ? NULL : &p);
  else if (kind == RLINE) s = osl_util_read_line(f, f ? NULL : &p);
  else s = osl_util_read_tag(f, f ? NULL : &p);
  sym_exit_ok(0);
  CHECK(len != -1, "a text without the expected item was accepted");
  if (len == -2) { CHECK(s == NULL, "an item was found at the end of the text"); sym_reach("end"); }
  else {
    if (kind == RINT) CHECK(v == value, "wrong int"); else { CHECK(s != NULL, "no item"); CHECK(streq(s, from, len), "wrong characters"); }
    int end = from + len + (kind == RTAG);
    if (f) CHECK(sym_fmem_pos(f) == (len == 0 && kind == RLINE ? sym_fmem_pos(f) : eol(end)), "wrong position in the stream"); else CHECK(p == T + end, "wrong position in the text");
    sym_reach("read");
  }
  free(s); if (f) fclose(f);
}
static int digit(char c) { return c >= '0' && c <= '9'; }
// any short text
void h_scan(void) {
  int kind = (int)sym_param("kind", RSTR), n = (int)sym_param("n", 4), stream = (int)sym_param("stream", 0);
  long base = sym_heap_live();
  static const char *al[4] = {" \n#1-5x", " \t\n#ab", " \n#a\tb", " \n#<>/A1_"};
  L = 0; anytext(sym_param("full", 0) ? full() : al[kind], n);
  int from = skip(0), len = 0, value = 0;
  if (kind == RINT) {
    int q = from, neg = T[q] == '-'; if (neg || T[q] == '+') q++;
    if (!digit(T[q])) len = -1;
    else { while (digit(T[q])) value = value * 10 + (T[q++] - '0'); if (neg) value = -value; len = q - from; sym_assume(!T[q] || sp(T[q]) || T[q] == '#'); }
  } else if (kind == RSTR) { while (T[from + len] && !sp(T[from + len]) && T[from + len] != '#') len++; if (!len) len = -1; }
  else if (kind == RLINE) { while (T[from + len] && T[from + len] != '\n' && T[from + len] != '#') len++; if (!len && stream) len = -1; }
  else if (!T[from]) len = -2;
  else if (T[from] != '<') len = -1;
  else { from++; for (;; len++) { char c = T[from + len]; if (c == '>') break; if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_' || (c == '/' && len == 0))) { len = -1; break; } } }
  read_both(kind, from, len, value, stream);
  sym_leak_check(base);
}
// long blanks, comments and tokens; the number itself is any int
void h_scan_long(void) {
  int kind = (int)sym_param("kind", RSTR), stream = (int)sym_param("stream", 0), gap = (int)sym_param("gap", 0), com = (int)sym_param("com", 0), len = (int)sym_param("len", 5), tail = (int)sym_param("tail", 0);
  long base = sym_heap_live();
  L = 0;
  if (gap) { putn(sym_ch("b", " \t"), 1); putn(' ', gap - 1); if (sym_pick("nl", 2)) put("\n"); }
  if (com) { put("#"); putn(sym_ch("c", "#x1< "), 1); putn('7', com - 2); put("\n"); }
  int from, value = 0, l = len;
  if (kind == RINT) { value = sym_int("value", INT_MIN, INT_MAX); from = L; char s[20]; sprintf(s, "%d", value); put(s); l = L - from; }
  else if (kind == RTAG) { put("<"); from = L; if (sym_pick("end", 2)) put("/"); putn(sym_ch("first", "aZ_"), 1); putn('k', len - 2); T[L++] = sym_ch("last", "zA_"); T[L] = 0; l = L - from; put(">"); }
  else { from = L; T[L++] = sym_ch("first", "a<\"\\-'5"); putn('k', len - 2); if (kind == RLINE && len > 40) T[L - 20] = sym_ch("mid", "a \t"); if (len > 1) T[L++] = sym_ch("last", "a%*"); T[L] = 0; l = L - from; }
  static const char *tails[4] = {"\nnext", " # comment\nnext", "", "#c"};
  int t = sym_pick("tail", 4); if (t == 1 && kind == RLINE) l++;
  put(tails[t]);
  if (tail && t != 2) putn('9', tail);
  read_both(kind, from, l, value, stream);
  sym_leak_check(base);
}
// a sequence of items, one per line, is read back in order with both forms
void h_scan_seq(void) {
  int stream = (int)sym_param("stream", 0), n = (int)sym_param("n", 3);
  long base = sym_heap_live();
  L = 0; int kind[6], from[6], len[6], v[6];
  for (int i = 0; i < n; i++) {
    int g = sym_pick("gap", 4); put(g == 0 ? "" : g == 1 ? "\n\n" : g == 2 ? "# c\n" : "   \n#\n  ");
    kind[i] = sym_pick("kind", 4); if (kind[i] == RTAG) put("<");
    from[i] = L; v[i] = 0;
    if (kind[i] == RINT) { v[i] = sym_int("v", -9, 9); if (v[i] < 0) { put("-"); T[L++] = (char)('0' - v[i]); } else T[L++] = (char)('0' + v[i]); T[L] = 0; }
    else { T[L++] = sym_ch("ch", "aB"); if (kind[i] == RLINE) { T[L++] = ' '; T[L++] = sym_ch("ch2", "x<"); } T[L] = 0; }
    len[i] = L - from[i]; if (kind[i] == RTAG) put(">");
    put(i + 1 < n || sym_pick("nl", 2) ? "\n" : "");
  }
  char *p = T; FILE *f = stream ? sym_fmem_open(T) : NULL;
  for (int i = 0; i < n; i++) {
    char **q = f ? NULL : &p, *s = NULL;
    if (kind[i] == RINT) CHECK(osl_util_read_int(f, q) == v[i], "wrong int");
    else { s = kind[i] == RSTR ? osl_util_read_string(f, q) : kind[i] == RLINE ? osl_util_read_line(f, q) : osl_util_read_tag(f, q); CHECK(s && streq(s, from[i], len[i]), "wrong item"); free(s); }
  }
  CHECK(osl_util_read_tag(f, f ? NULL : &p) == NULL, "an item was found at the end");
  sym_reach("sequence");
  if (f) fclose(f);
  sym_leak_check(base);
}
// the next line of a stream that holds something else than blanks and a comment, in a buffer of OSL_MAX_STRING characters
void h_skip_lines(void) {
  int n = (int)sym_param("n", 4), pre = (int)sym_param("pre", 0), com = (int)sym_param("com", 0), gap = (int)sym_param("gap", 0), len = (int)sym_param("len", 0);
  long base = sym_heap_live();
  L = 0; putn(' ', gap);
  if (com) { put("#"); putn('7', com - 1); put(sym_pick("end", 2) ? "\n" : "\n\n# x\n \t"); }
  if (pre) { putn('\t', pre); if (sym_pick("nl", 2)) put("\n"); }
  anytext(sym_param("full", 0) ? full() : " \t\n#a5", n); putn('k', len);
  int q = 0, from = -1, end = 0;                       // line by line
  while (T[q]) {
    int b = q; while (T[b] && sp(T[b]) && T[b] != '\n') b++;
    end = eol(q);
    if (T[b] && T[b] != '\n' && T[b] != '#') { from = b; if (end - q > OSL_MAX_STRING - 1) end = q + OSL_MAX_STRING - 1; break; }
    q = end;
  }
  if (from - q > OSL_MAX_STRING - 2) { sym_done(); return; }   // blanks beyond the buffer
  char *buf = malloc(OSL_MAX_STRING); FILE *f = sym_fmem_open(T);
  char *s = osl_util_skip_blank_and_comments(f, buf);
  if (from < 0) { CHECK(s == NULL, "a line was found at the end of the text"); sym_reach("end"); }
  else { CHECK(s != NULL, "no line"); CHECK(s >= buf && s < buf + OSL_MAX_STRING, "not in the buffer"); CHECK(streq(s, from, end - from), "not the next line"); CHECK(sym_fmem_pos(f) == end, "wrong position in the stream"); sym_reach("line"); }
  fclose(f); free(buf); sym_leak_check(base);
}
// what is announced as given is given
void h_provided(void) {
  int v = sym_int("provided", INT_MIN, INT_MAX), n = (int)sym_param("n", 3); long base = sym_heap_live();
  FILE *f = sym_fmem_new(); char *title = malloc((size_t)n + 1); for (int i = 0; i < n; i++) title[i] = i < 3 ? sym_ch("c", "a %s1") : 'x'; title[n] = 0;
  osl_util_print_provided(f, v, title);
  FILE *g = sym_fmem_open(sym_fmem_text(f));
  CHECK(osl_util_read_int(g, NULL) == (v != 0), "the announcement says something else"); CHECK(osl_util_read_tag(g, NULL) == NULL, "more than an announcement");
  fclose(g); sym_fmem_close(f); free(title); sym_leak_check(base); sym_reach("provided");
}
// up to a flag
void h_upto(void) {
  int stream = (int)sym_param("stream", 0), n = (int)sym_param("n", 5), which = (int)sym_param("flag", 0), pre = (int)sym_param("pre", 0), form = (int)sym_param("form", 0);
  long base = sym_heap_live();
  static const char *flags[6] = {"ab", "aab", "a", "aba", "<a>", "</a>"};
  const char *fl = form == 1 ? "<a>" : form == 2 ? "</a>" : flags[which];
  L = 0; putn('a', pre); anytext(form ? "<>/a" : "ab\n", n);
  int fn = (int)strlen(fl), at = -1;
  for (int i = 0; i + fn <= L && at < 0; i++) if (!strncmp(T + i, fl, (size_t)fn)) at = i;
  char *p = T; FILE *f = stream ? sym_fmem_open(T) : NULL; char **q = f ? NULL : &p;
  char *s = form == 1 ? osl_util_read_uptotag(f, q, "a") : form == 2 ? osl_util_read_uptoendtag(f, q, "a") : osl_util_read_uptoflag(f, q, fl);
  if (at < 0) { CHECK(s == NULL, "a flag that is not in the text was found"); sym_reach("absent"); }
  else { CHECK(s != NULL && streq(s, 0, at), "not the text before the first flag"); if (f) CHECK(sym_fmem_pos(f) == at + fn, "wrong position in the stream"); else CHECK(p == T + at + fn, "wrong position in the text"); sym_reach("found"); }
  free(s); if (f) fclose(f);
  sym_leak_check(base);
}
void h_tag_content(void) {
  int n = (int)sym_param("n", 4), pre = (int)sym_param("pre", 0), mid = (int)sym_param("mid", 0);
  long base = sym_heap_live();
  L = 0; putn('q', pre); anytext("<>a\n", pre ? 1 : 2); if (sym_pick("start", 2)) put("<a>"); putn('w', mid); anytext("<>/a\n", n); if (sym_pick("stop", 2)) put("</a>"); put(sym_pick("more", 2) ? "<a>z</a>" : "");
  int a = -1, b = -1;
  for (int i = 0; i + 3 <= L && a < 0; i++) if (!strncmp(T + i, "<a>", 3)) a = i + 3;
  if (a >= 0) for (int i = a; i + 4 <= L && b < 0; i++) if (!strncmp(T + i, "</a>", 4)) b = i;
  char *s = osl_util_tag_content(T, "a");
  if (b < 0) { CHECK(s == NULL, "the content of an absent tag was found"); sym_reach("absent"); }
  else { CHECK(s != NULL && streq(s, a, b - a), "not what is between the tags"); sym_reach("found"); }
  free(s);
  CHECK(osl_util_tag_content(NULL, "a") == NULL, "no text has no content");
  sym_leak_check(base);
}
// growing strings
void h_strcat(void) {
  int a = (int)sym_param("a", 0), b = (int)sym_param("b", 0), k = (int)sym_param("k", 1);
  long base = sym_heap_live();
  size_t hwm = (size_t)(a + 1 + (int)sym_param("slack", 0));
  char *d = malloc(hwm), *src = malloc((size_t)b + 1);
  L = 0; for (int i = 0; i < a; i++) T[L++] = i == 0 || i == a - 1 ? sym_ch("d", "xy") : 'm'; T[L] = 0; strcpy(d, T);
  for (int i = 0; i < b; i++) src[i] = i == 0 || i == b - 1 ? sym_ch("s", "zw") : 'n'; src[b] = 0;
  for (int i = 0; i < k; i++) { osl_util_safe_strcat(&d, src, &hwm); put(src); CHECK(hwm > strlen(d), "the capacity is too small"); }
  CHECK(streq(d, 0, L), "characters were lost when appending");
  d[hwm - 1] = 0;          // the capacity is really there
  char *e = osl_util_strdup(d); CHECK(e != d && streq(e, 0, L), "wrong copy of a string");
  free(d); free(src); free(e);
  sym_reach("appended");
  sym_leak_check(base);
}
void h_env(void) {
  static char e[4]; int n = sym_pick("len", 4);
  for (int i = 0; i < n; i++) e[i] = sym_ch("e", "0123456"); e[n] = 0;
  sym_setenv_precision(n ? e : NULL);
  int p = osl_util_get_precision(), want = n == 2 && e[0] == '3' && e[1] == '2' ? SP : n == 2 && e[0] == '6' && e[1] == '4' ? DP : MP;
  CHECK(p == want, "wrong precision");
  long base = sym_heap_live();
  int sz = sym_pick("size", 4), rows = sym_pick("rows", 3), cols = sym_pick("columns", 3); osl_vector_t *v = osl_vector_malloc(sz); osl_relation_t *r = osl_relation_malloc(rows, cols);
  CHECK(v->size == sz && r->nb_rows == rows && r->nb_columns == cols, "a new structure does not have the size asked for");
  CHECK(v->precision == want && r->precision == want, "a new structure does not have the current precision");
  int bad = 0; for (int i = 0; i < v->size; i++) bad |= !osl_int_zero(want, v->v[i]); for (int i = 0; i < r->nb_rows; i++) for (int j = 0; j < r->nb_columns; j++) bad |= !osl_int_zero(want, r->m[i][j]);
  CHECK(!bad && !r->next, "a new structure is not empty"); osl_vector_free(v); osl_relation_free(r); sym_leak_check(base);
  sym_reach("env");
}

// ---- P18
#define SETP "ab!<>@,;(\"\\%"
static char str[9][3000];
static void anystr(int i, int len) { for (int k = 0; k < len; k++) str[i][k] = k < 2 || k == len - 1 ? sym_ch("s", SETP) : 'k'; str[i][len] = 0; }
static int pickone(int n, int which) { return which < n ? which : n - 1; }
static void same(const osl_strings_t *s, int n) {
  CHECK(s != NULL && s->string != NULL, "no strings"); CHECK(osl_strings_size(s) == (size_t)n, "wrong number of strings");
  for (int i = 0; i < n; i++) { CHECK(s->string[i] != str[i], "a string is shared"); CHECK(!strcmp(s->string[i], str[i]), "a string changed"); }
  CHECK(s->string[n] == NULL, "the list is not terminated");
}
static osl_strings_t *mkstrings(int n, int lo, int hi) { osl_strings_t *s = osl_strings_malloc(); for (int i = 0; i < n; i++) { anystr(i, lo + sym_pick("len", hi - lo + 1)); osl_strings_add(s, str[i]); } return s; }
void h_strings(void) {
  int n = (int)sym_param("n", 3);
  long base = sym_heap_live();
  osl_strings_t *s = osl_strings_malloc(); CHECK(osl_strings_size(s) == 0 && osl_strings_size(NULL) == 0, "empty strings");
  for (int i = 0; i < n; i++) { anystr(i, 1 + sym_pick("len", 2)); osl_strings_add(s, str[i]); same(s, i + 1); }
  // find any string
  char t[3]; int tl = 1 + sym_pick("tl", 2); for (int k = 0; k < tl; k++) t[k] = sym_ch("t", SETP); t[tl] = 0;
  int want = n; for (int i = n - 1; i >= 0; i--) if (!strcmp(str[i], t)) want = i;
  sym_freeze();
  CHECK(osl_strings_find(s, t) == (size_t)want, "wrong position of a string");
  osl_strings_t *c = osl_strings_clone(s);
  sym_unchanged("looking at strings changed them"); sym_thaw();
  same(c, n); CHECK(c != s && osl_strings_equal(c, s) && osl_strings_equal(s, c), "a copy is equal");
  if (n) { CHECK(c->string[0] != s->string[0], "a copy shares a string");
    int w = sym_pick("w", n); char o = c->string[w][0]; c->string[w][0] = sym_ch("o", SETP); int eq = c->string[w][0] == o; CHECK(osl_strings_equal(c, s) == eq && osl_strings_equal(s, c) == eq, "wrong comparison of strings"); same(s, n); c->string[w][0] = o; }
  osl_strings_add(c, "z"); CHECK(!osl_strings_equal(c, s) && !osl_strings_equal(s, c) && !osl_strings_equal(s, NULL) && !osl_strings_equal(NULL, s) && osl_strings_equal(NULL, NULL), "wrong comparison of strings");
  same(s, n);
  osl_strings_free(c); same(s, n); osl_strings_free(s); osl_strings_free(NULL);
  CHECK(osl_strings_clone(NULL) == NULL, "a copy of nothing");
  sym_reach("strings");
  sym_leak_check(base);
}
void h_strings_join(void) {
  int n = (int)sym_param("n", 2), m = (int)sym_param("m", 2);
  long base = sym_heap_live();
  osl_strings_t *a = mkstrings(n + m, 1, 2), *b = osl_strings_malloc(), *r = NULL;
  for (int i = n; i < n + m; i++) osl_strings_add(b, str[i]);
  osl_strings_free(a); a = osl_strings_malloc(); for (int i = 0; i < n; i++) osl_strings_add(a, str[i]);
  sym_freeze(); osl_strings_add_strings(&r, a, b); sym_unchanged("joining changed an operand"); sym_thaw();
  same(r, n + m); same(a, n);
  // joining may overwrite its operand's variable
  osl_strings_t *old = r; osl_strings_add_strings(&r, r, a);
  CHECK(osl_strings_size(r) == (size_t)(n + m + n), "wrong number of strings"); CHECK(osl_strings_size(old) == (size_t)(n + m), "wrong number of strings");
  osl_strings_free(old); osl_strings_free(r); osl_strings_free(a); osl_strings_free(b);
  char *own = osl_util_strdup("own"); osl_strings_t *e = osl_strings_encapsulate(own); CHECK(osl_strings_size(e) == 1 && e->string[0] == own && e->string[1] == NULL, "wrong wrapping"); osl_strings_free(e);
  sym_reach("joined");
  sym_leak_check(base);
}
void h_strings_generate(void) {
  int n = (int)sym_param("n", 11);
  long base = sym_heap_live();
  int pl = sym_pick("pl", 3); char p[3]; for (int i = 0; i < pl; i++) p[i] = sym_ch("p", "ab_%1"); p[pl] = 0;
  if (n < 0) n = sym_int("n", INT_MIN, -1);
  osl_strings_t *s = osl_strings_generate(p, n); int k = n < 0 ? 0 : n;
  CHECK(s != NULL && osl_strings_size(s) == (size_t)k && s->string && s->string[k] == NULL, "wrong number of generated strings");
  for (int i = 0; i < k; i++) {
    char num[8]; int q = 0, d[5], m = 0; for (int x = i + 1; x; x /= 10) d[m++] = x % 10; while (m) num[q++] = (char)('0' + d[--m]); num[q] = 0;
    CHECK(!strncmp(s->string[i], p, (size_t)pl) && !strcmp(s->string[i] + pl, num), "wrong generated name");
  }
  osl_strings_add(s, "x"); CHECK(osl_strings_size(s) == (size_t)k + 1, "a generated list can grow");
  osl_strings_free(s);
  sym_reach("generated");
  sym_leak_check(base);
}
// print then read
void h_strings_text(void) {
  int n = (int)sym_param("n", 2), big = (int)sym_param("len", 0), stream = (int)sym_param("stream", 0);
  long base = sym_heap_live();
  osl_strings_t *s = big ? osl_strings_malloc() : mkstrings(n, 1, 2);
  if (big) for (int i = 0; i < n; i++) { anystr(i, big - i); osl_strings_add(s, str[i]); }
  sym_freeze();
  char *t = osl_strings_sprint(s); FILE *f = sym_fmem_new(); osl_strings_print(f, s);
  sym_unchanged("printing changed the strings"); sym_thaw();
  CHECK(!strcmp(sym_fmem_text(f), t), "the two printing functions differ");
  L = 0; for (int i = 0; i < n; i++) { if (i) put(" "); put(str[i]); } put("\n");
  CHECK(streq(t, 0, L), "wrong text");
  char *p = t; osl_strings_t *r;
  if (stream) { FILE *g = sym_fmem_open(t); if (!n) sym_exit_ok(1); r = osl_strings_read(g); sym_exit_ok(0); fclose(g); } else r = osl_strings_sread(&p);
  if (n) { same(r, n); CHECK(osl_strings_equal(r, s), "what is read differs from what was printed"); } else CHECK(r == NULL, "strings out of nothing");
  if (!stream) CHECK(*p == 0, "the text was not passed");
  free(t); fclose(f); osl_strings_free(s); osl_strings_free(r);
  sym_reach("roundtrip");
  sym_leak_check(base);
}
// any short text
void h_strings_scan(void) {
  int n = (int)sym_param("n", 5), pre = (int)sym_param("pre", 0);
  long base = sym_heap_live();
  L = 0; putn('k', pre); anytext(sym_param("full", 0) ? full() : " \n#ab", n);
  int p = skip(0), k = 0, at[8], len[8], end = p;
  for (;;) {
    while (T[p] && T[p] != '\n' && sp(T[p])) p++;
    if (!T[p] || T[p] == '\n' || T[p] == '#') break;
    at[k] = p; while (T[p] && !sp(T[p]) && T[p] != '#') p++; len[k] = p - at[k]; k++; end = p;
  }
  char *q = T; osl_strings_t *s = osl_strings_sread(&q);
  if (!k) { CHECK(s == NULL, "strings out of nothing"); sym_reach("none"); }
  else {
    CHECK(s != NULL && osl_strings_size(s) == (size_t)k, "wrong number of strings");
    for (int i = 0; i < k; i++) CHECK(streq(s->string[i], at[i], len[i]), "wrong string");
    sym_reach("strings");
    CHECK(q >= T + end && q <= T + eol(end), "wrong position after the strings");
  }
  osl_strings_free(s);
  sym_leak_check(base);
}

// ---- P20
static int idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static char O[2 * TMAX]; static int OL;
static void out(const char *s) { while (*s) O[OL++] = *s++; O[OL] = 0; }
static int in(char c, const char *s) { for (; *s; s++) if (*s == c) return 1; return 0; }
static void refsub(char **id, int n) {
  OL = 0; O[0] = 0;
  for (int i = 0; i < L;) {
    int hit = -1, len = 0;
    if (i == 0 || !idc(T[i - 1])) for (int j = 0; j < n && hit < 0; j++) { len = (int)strlen(id[j]); if (!strncmp(T + i, id[j], (size_t)len) && !idc(T[i + len])) hit = j; }
    if (hit < 0) { char c[2] = {T[i], 0}; out(c); i++; continue; }
    int a = i - 1, b = i + len; while (a >= 0 && sp(T[a])) a--; while (b < L && sp(T[b])) b++;
    int alone = (a < 0 || in(T[a], "[(+=,")) && (b >= L || in(T[b], "])+,;"));
    char m[8] = "@0@"; m[1] = (char)('0' + hit); if (!alone) out("("); out(m); if (!alone) out(")");
    i += len; sym_reach("substituted");
  }
}
void h_subst(void) {
  int n = (int)sym_param("n", 4), set = (int)sym_param("set", 0), pre = (int)sym_param("pre", 0), al = (int)sym_param("al", 0);
  long base = sym_heap_live();
  static char *sets[5][4] = {{"a", "b", NULL, NULL}, {"a", "ab", NULL, NULL}, {"ab", "a", "a", NULL}, {"i1", "i", "_", NULL}, {NULL, NULL, NULL, NULL}};
  static const char *als[4] = {"ab1_ ", "a +[", "i1_ ,*", "ab]-;("};
  char **id = sets[set]; int k = 0; while (id[k]) k++;
  L = 0; for (int i = 0; i < pre; i++) T[L++] = i % 4 == 3 ? '*' : 'z'; T[L] = 0; anytext(al == 4 ? full() : als[al], n);
  refsub(id, k);
  char keep[TMAX]; strcpy(keep, T);
  char *s = osl_util_identifier_substitution(T, id);
  CHECK(s != NULL && !strcmp(s, O), "wrong substitution"); CHECK(!strcmp(keep, T), "the expression changed");
  free(s);
  sym_reach("done");
  sym_leak_check(base);
}
// symbolic identifiers, and many of them
// long identifiers: each of two differs from the other only in its last character
void h_subst_longid(void) {
  int len = (int)sym_param("len", 300);
  long base = sym_heap_live();
  static char nm[2][8002]; char *id[3] = {nm[0], nm[1], NULL};
  for (int k = 0; k < 2; k++) { memset(nm[k], 'a', len); nm[k][len] = k ? 'c' : 'b'; nm[k][len + 1] = 0; }
  static char text[40000]; int p = 0, w[3]; static char want[20000]; int q = 0;
  for (int i = 0; i < 3; i++) {
    w[i] = sym_pick("w", 3); memset(text + p, 'a', len); p += len; text[p++] = w[i] == 0 ? 'b' : w[i] == 1 ? 'c' : 'd'; 
    if (w[i] < 2) { want[q++] = '('; want[q++] = '@'; want[q++] = (char)('0' + w[i]); want[q++] = '@'; want[q++] = ')'; } else { memcpy(want + q, text + p - len - 1, len + 1); q += len + 1; }
    char c = sym_ch("between", "-*!"); text[p++] = c; want[q++] = c;
  }
  text[p] = want[q] = 0;
  char *s = osl_util_identifier_substitution(text, id);
  CHECK(s && strlen(s) == (size_t)q, "wrong substitution");
  CHECK(!memcmp(s, want, q), "wrong substitution");
  sym_reach("substituted"); free(s); sym_leak_check(base);
}
void h_subst_ids(void) {
  int n = (int)sym_param("n", 3), many = (int)sym_param("many", 0);
  long base = sym_heap_live();
  static char names[130][4]; char *id[131]; int k = 0;
  if (many) { for (; k < many; k++) { sprintf(names[k], "v%d", k); id[k] = names[k]; } }
  else for (; k < 2; k++) { int l = 1 + sym_pick("il", 2); for (int q = 0; q < l; q++) names[k][q] = sym_ch("id", q ? "ab_1" : "ab_"); names[k][l] = 0; id[k] = names[k]; }
  id[k] = NULL;
  L = 0;
  if (many) {
    int w = sym_pick("w", many); put("x["); put(names[w]); put("]-"); put(names[w]);
    char *s = osl_util_identifier_substitution(T, id), e[64]; sprintf(e, "x[@%d@]-(@%d@)", w, w); CHECK(!strcmp(s, e), "wrong substitution"); free(s); sym_reach("substituted");
  } else { anytext("ab_ 1+", n); refsub(id, k); char *s = osl_util_identifier_substitution(T, id); CHECK(s != NULL && !strcmp(s, O), "wrong substitution"); free(s); }
  sym_reach("done");
  sym_leak_check(base);
}

// the five lists of names of a relation: generated, copied, released; any of them may be absent
void h_names(void) {
  long base = sym_heap_live();
  int n[5], off = sym_pick("off", 6) - 1, at = sym_pick("at", 5); static const char *const pre[5] = {"P", "it", "c", "lo_", "A"};
  for (int k = 0; k < 5; k++) n[k] = k == at ? sym_pick("n", 5) - 1 : (k * 2 + 1) % 4;
  osl_names_t *o = osl_names_generate(pre[0], n[0], pre[1], n[1], pre[2], n[2], pre[3], n[3], pre[4], n[4]);
  osl_strings_t **s[5] = {&o->parameters, &o->iterators, &o->scatt_dims, &o->local_dims, &o->arrays};
  if (off >= 0) { osl_strings_free(*s[off]); *s[off] = NULL; }
  sym_freeze(); for (int k = 0; k < 2; k++) { FILE *f = sym_fmem_new(), *g = sym_fmem_new(); osl_names_idump(f, k ? o : NULL, 0); osl_names_dump(g, k ? o : NULL); CHECK(!strcmp(sym_fmem_text(f), sym_fmem_text(g)), "dumped in two ways"); sym_fmem_close(f); sym_fmem_close(g); f = sym_fmem_new(); osl_names_idump(f, k ? o : NULL, 2); sym_fmem_close(f); } sym_unchanged("dumping altered the names"); sym_thaw();
  osl_names_t *c = osl_names_clone(o);
  for (int turn = 0; turn < 2; turn++) {
    osl_names_t *x = turn ? c : o; osl_strings_t *t[5] = {x->parameters, x->iterators, x->scatt_dims, x->local_dims, x->arrays};
    for (int k = 0; k < 5; k++) {
      if (k == off) { CHECK(t[k] == NULL, "absent names became present"); continue; }
      int m = n[k] < 0 ? 0 : n[k]; CHECK(t[k] != NULL && osl_strings_size(t[k]) == (size_t)m, "wrong number of names");
      for (int i = 0; i < m; i++) { char b[16]; sprintf(b, "%s%d", pre[k], i + 1); CHECK(!strcmp(t[k]->string[i], b), "wrong name"); } }
    if (!turn) { for (int k = 0; k < 5; k++) if (k != off) { osl_strings_add(t[k], "more"); if (n[k] > 0) t[k]->string[0][0] = '~'; } osl_names_free(o); }
  }
  CHECK(osl_names_clone(NULL) == NULL, "a copy of no names"); osl_names_free(NULL);
  osl_names_t *e = osl_names_malloc(); CHECK(!e->parameters && !e->iterators && !e->scatt_dims && !e->local_dims && !e->arrays, "new names are not empty"); osl_names_free(e);
  osl_names_free(c); sym_leak_check(base); sym_reach("names");
}
