// P19: lists of extensions and of interfaces, against a plain array of what should be there.
#define MAXF 400
#include "zoo.h"
#define MXL 20
static Str now, before[MXL + 2];
static osl_generic_t *list, *node[MXL]; static int n, kd[MXL], idx[MXL];   // the elements that should be there, in order
static const int ks[12] = {Z_ARRAYS, Z_COORD, Z_BODY, Z_STRINGS, Z_SCATINFOS, Z_SCATNAMES, Z_LOOP, Z_CLAY, Z_COMMENT, Z_DEP, Z_REGION, Z_EXTBODY};
static int K;
static int mk1(osl_generic_t **g, int k, int slot) { *g = osl_generic_malloc(); (*g)->interface = zinterface(k); zat = -1; zseed = slot; (*g)->data = zmake(k, &before[slot]); return slot; }
static int find(int k) { for (int i = 0; i < n; i++) if (kd[i] == k) return i; return -1; }
static void verify(void) {
  sym_freeze();
  CHECK(osl_generic_number(list) == n && osl_generic_count(list) == n, "the count is not the number of elements");
  osl_generic_t *g = list;
  for (int i = 0; i < n; i++, g = g->next) {
    CHECK(g != NULL, "an element is lost");
    CHECK(g == node[i], "the elements are not in the order of their addition");
    for (int j = 0; j < K; j++) CHECK((osl_generic_has_URI(g, zuri[ks[j]]) != 0) == (ks[j] == kd[i]), "an element is not of the kind it was added as");
    zread(kd[i], g->data, &now); CHECK(same(&now, &before[idx[i]]), "the data of an element changed"); }
  CHECK(g == NULL, "elements appear");
  for (int j = 0; j < K; j++) { int i = find(ks[j]); void *d = osl_generic_lookup(list, zuri[ks[j]]); CHECK(d == (i < 0 ? NULL : node[i]->data), "lookup does not return the data of the requested kind"); }
  CHECK(osl_generic_lookup(list, "none") == NULL && osl_generic_lookup(list, "") == NULL, "lookup of an unknown kind returns something");
  CHECK(!osl_generic_has_URI(NULL, zuri[ks[0]]), "nothing has a kind");
  sym_unchanged("looking up altered the list"); sym_thaw();
}
static int nslot;
static void push(osl_generic_t *g, int k, int slot) { node[n] = g; kd[n] = k; idx[n] = slot; n++; }
static osl_generic_t *pair[2];
static void add(int cnt) {
  int k[2], s[2], dup = 0;
  for (int i = 0; i < cnt; i++) { k[i] = ks[sym_pick("kind", K)]; dup |= find(k[i]) >= 0 || (i && k[0] == k[1]); }
  if (dup && n + cnt > MXL) return;
  for (int i = 0; i < cnt; i++) s[i] = mk1(&pair[i], k[i], nslot++);
  if (cnt == 2) pair[0]->next = pair[1];
  sym_exit_ok(dup);
  osl_generic_add(&list, pair[0]);
  sym_exit_ok(0);
  if (dup) {                                            // accepted after all: still one element of each kind
    for (int j = 0; j < K; j++) { int c = 0; for (osl_generic_t *g = list; g; g = g->next) c += osl_generic_has_URI(g, zuri[ks[j]]) != 0; CHECK(c <= 1, "two elements of the same kind"); }
    sym_done(); return; }
  for (int i = 0; i < cnt; i++) push(pair[i], k[i], s[i]);
}
static void drop(int i) { n--; for (; i < n; i++) { node[i] = node[i + 1]; kd[i] = kd[i + 1]; idx[i] = idx[i + 1]; } }
void h_generic_seq(void) {
  list = NULL; n = nslot = 0; pair[0] = pair[1] = NULL;
  zsetup(); zsym = 1; zrange = 0; K = (int)sym_param("kinds", 3); int steps = (int)sym_param("steps", 2), start = (int)sym_param("start", 1), base = (int)sym_param("base", 0); 
  (void)base; long live = sym_heap_live();
  for (int i = 0; i < start; i++) { osl_generic_t *g; int s = mk1(&g, ks[i], nslot++); osl_generic_add(&list, g); push(g, ks[i], s); }
  verify();
  for (int i = 0; i < steps; i++) {
    switch (sym_pick("op", 7)) {
      case 0: add(1); break;
      case 1: add(2); break;
      case 2: osl_generic_add(&list, NULL); break;
      case 3: { int k = ks[sym_pick("kind", K)], j = find(k); osl_generic_remove(&list, zuri[k]); if (j >= 0) drop(j); break; }
      case 4: osl_generic_remove(&list, "none"); break;
      case 5: { if (!n) { osl_generic_remove_node(&list, NULL); break; } int j = sym_pick("which", n); osl_generic_remove_node(&list, node[j]); drop(j); break; }
      case 6: { osl_generic_t *o; int k = ks[sym_pick("kind", K)], s = mk1(&o, k, MXL + 1); osl_generic_remove_node(&list, o); if (sym_pick("null", 2)) osl_generic_remove_node(&list, NULL); zread(k, o->data, &now); CHECK(same(&now, &before[s]) && !o->next, "removing an element of no list altered it"); osl_generic_free(o); break; } }
    verify(); }
  osl_generic_free(list); sym_leak_check(live); sym_reach("sequence");
}
// a name close to that of a kind: one byte of it any byte, cut anywhere, or followed by any bytes
static char nm[64];
static int kd_any(const char *u) { for (int i = 0; i < Z_EXT; i++) { const char *a = zuri[i], *b = u; while (*a && *a == *b) a++, b++; if (*a == *b) return i; } return -1; }
static void any_name(const char *u) {
  int l = (int)strlen(u), form = sym_pick("form", 3); strcpy(nm, u);
  if (form == 0) nm[sym_pick("byte", l)] = (char)sym_byte("c");
  else if (form == 1) nm[sym_pick("cut", l + 1)] = 0;
  else { nm[l] = (char)sym_byte("c"); nm[l + 1] = (char)sym_byte("c"); nm[l + 2] = 0; }
}
void h_lookup_name(void) {
  zsetup(); static const int set[7] = {Z_SCATNAMES, Z_SCATINFOS, Z_ARRAYS, Z_BODY, Z_EXTBODY, Z_RELATION, Z_REGION}; int first = sym_pick("first", 3);
  long live = sym_heap_live();
  osl_generic_t *g[7]; void *want = NULL; osl_generic_t *w = NULL;
  for (int i = 0; i < 7 - first; i++) { mk1(&g[i], set[i + first], 0); osl_generic_add(&list, g[i]); }
  any_name(zuri[set[first + sym_pick("of", 7 - first)]]);
  for (int i = 0; i < 7 - first; i++) { const char *a = zuri[set[i + first]]; int eq = 1; for (int j = 0;; j++) { if (a[j] != nm[j]) eq = 0; if (!a[j] || !nm[j]) break; }
    if (eq) { want = g[i]->data; w = g[i]; }
    CHECK((osl_generic_has_URI(g[i], nm) != 0) == eq, "the kind of an element is not told by its exact name"); }
  CHECK(osl_generic_lookup(list, nm) == want, "lookup does not go by the exact name");
  sym_reach(want ? "found" : "absent");
  osl_generic_remove(&list, nm);
  osl_generic_t *x = list; for (int i = 0; i < 7 - first; i++) if (g[i] != w) { CHECK(x == g[i], "removal took another kind"); x = x->next; }
  CHECK(x == NULL, "removal did not take the kind");
  osl_generic_free(list); sym_leak_check(live);
}
void h_registry(void) {
  long live = sym_heap_live();
  osl_interface_t *r = osl_interface_get_default_registry(); int c = 0;
  for (osl_interface_t *i = r; i; i = i->next, c++) CHECK(i->URI != NULL && osl_interface_lookup(r, i->URI) == i, "two interfaces of the same name");
  CHECK(osl_interface_number(r) == c, "the number of interfaces is wrong");
  for (int k = 0; k < Z_EXT; k++) if (k != Z_IRREG) {
    osl_interface_t *i = osl_interface_lookup(r, zuri[k]), *o = zinterface(k); CHECK(i != NULL, "a standard kind is not in the default registry");
    osl_interface_t *one = osl_interface_nclone(i, 1); CHECK(osl_interface_equal(one, o) && one->next == NULL, "a kind is registered with the operations of another"); osl_interface_free(one); osl_interface_free(o); }
  any_name(zuri[sym_pick("of", Z_EXT)]); int k = kd_any(nm);
  osl_interface_t *i = osl_interface_lookup(r, nm);
  CHECK((i != NULL) == (k >= 0 && k != Z_IRREG), "registry lookup does not go by the exact name");
  if (i) CHECK(i->URI != nm && kd_any(i->URI) == k, "registry lookup returns another interface");
  sym_reach(i ? "found" : "absent");
  CHECK(osl_interface_lookup(r, NULL) == NULL && osl_interface_lookup(NULL, "body") == NULL, "lookup of nothing returns something");
  osl_interface_free(r); sym_leak_check(live);
}
// each kind of data goes with the operations its interface names: malloc gives an object that free, clone and equal of the same interface accept
void h_interface_ops(void) {
  for (int k = 0; k < Z_EXT; k++) if (k != Z_RELATION) {
    long live = sym_heap_live();
    osl_interface_t *i = zinterface(k); CHECK(i && i->URI && i->malloc && i->free && i->clone && i->equal && i->idump && i->sprint && i->sread && !i->next && !strcmp(i->URI, zuri[k]), "an interface is incomplete");
    void *o = i->malloc(), *c = i->clone(o); CHECK(i->equal(o, c), "a clone of an empty object differs"); i->free(o); i->free(c); osl_interface_free(i); sym_leak_check(live); }
  sym_reach("all");
}
static osl_interface_t *ireg, *inode[MXL]; static int in, ikd[MXL];
static void iverify(int K) {
  sym_freeze(); CHECK(osl_interface_number(ireg) == in, "the number of interfaces is wrong");
  osl_interface_t *g = ireg; for (int i = 0; i < in; i++, g = g->next) CHECK(g == inode[i] && !strcmp(g->URI, zuri[ikd[i]]), "the interfaces are not in the order of their registration");
  CHECK(g == NULL, "interfaces appear");
  for (int j = 0; j < K; j++) { osl_interface_t *w = NULL; for (int i = 0; i < in; i++) if (ikd[i] == ks[j]) w = inode[i]; CHECK(osl_interface_lookup(ireg, zuri[ks[j]]) == w, "registry lookup does not return the registered interface"); }
  sym_unchanged("looking up altered the registry"); sym_thaw();
}
void h_interface_seq(void) {
  ireg = NULL; in = 0;
  int K = (int)sym_param("kinds", 4), steps = (int)sym_param("steps", 3); long live = sym_heap_live();
  for (int i = 0; i < (int)sym_param("start", 0); i++) { inode[in] = zinterface(ks[i]); ikd[in] = ks[i]; osl_interface_add(&ireg, inode[in++]); }
  for (int s = 0; s < steps; s++) {
    int cnt = 1 + sym_pick("cnt", 3), dup = 0, k[3]; osl_interface_t *a[3];
    if (cnt == 3) { osl_interface_add(&ireg, NULL); iverify(K); continue; }
    for (int i = 0; i < cnt; i++) { k[i] = ks[sym_pick("kind", K)]; for (int j = 0; j < in; j++) dup |= ikd[j] == k[i]; dup |= i && k[0] == k[1]; a[i] = zinterface(k[i]); if (i) a[0]->next = a[1]; }
    sym_exit_ok(dup); osl_interface_add(&ireg, a[0]); sym_exit_ok(0);
    if (dup) { for (int j = 0; j < K; j++) { int c = 0; for (osl_interface_t *g = ireg; g; g = g->next) c += !strcmp(g->URI, zuri[ks[j]]); CHECK(c <= 1, "two interfaces of the same name"); } sym_done(); return; }
    for (int i = 0; i < cnt; i++) { inode[in] = a[i]; ikd[in++] = k[i]; }
    iverify(K); }
  osl_interface_t *c = osl_interface_clone(ireg); CHECK(osl_interface_equal(c, ireg), "a registry differs from its copy"); osl_interface_free(c);
  osl_interface_free(ireg); sym_leak_check(live); sym_reach("sequence");
}
void h_shell(void) {
  zsetup(); int k = sym_pick("kind", Z_EXT); zsym = 1; long live = sym_heap_live();
  osl_interface_t *i = sym_pick("interface", 2) ? zinterface(k) : NULL; void *d = i && sym_pick("data", 2) ? zmake(k, &before[0]) : NULL;
  osl_generic_t *g = osl_generic_shell(d, i);
  CHECK(g && g->data == d && g->interface == i && g->next == NULL, "a shell does not hold what it was given");
  if (d) { zread(k, d, &now); CHECK(same(&now, &before[0]), "wrapping altered the data"); }
  // nothing but the name counts, and an element without name is passed over
  if (i && !d && sym_pick("nameless", 2)) { free(i->URI); i->URI = NULL; }
  int named = i && i->URI; for (int j = 0; j < Z_EXT; j++) CHECK((osl_generic_has_URI(g, zuri[j]) != 0) == (named && j == k), "an element is not told by its name");
  int o = sym_pick("second", 3); g->next = osl_generic_malloc(); g->next->interface = zinterface(ks[o]); g->next->data = zmake(ks[o], &before[1]);
  CHECK(osl_generic_lookup(g, zuri[ks[o]]) == (named && ks[o] == k ? d : g->next->data), "the element after one without name or data is not found");
  osl_generic_free(g); sym_leak_check(live); sym_reach("shell");
}
// documents: extensions of known and unknown names, in any order; the registry may lack some kinds
static char doc[60000]; static int dl;
static void w(const char *s) { while (*s) doc[dl++] = *s++; doc[dl] = 0; }
static const char *const unk[5] = {"foo", "array", "arrays_", "B", "scatnamesx"};
static const char *const junk[4] = {"1 2 3\n", "<arrays>\n2\n1 i\n2 j\n</arrays>\n", "# </arr\n</fo> <scop> \n<body>\n", ""};
static const char *const gap[4] = {"", "\n# <arrays> 3 </arrays>\n \n", " \t", "\n</arrays>\n"};
static int way, dn, dk[MXL]; static osl_interface_t *reg;
static osl_generic_t *readdoc(int items) {
  osl_generic_t *l = NULL, *g; FILE *f; char *p = doc;
  switch (way) {
    case 0: { l = osl_generic_sread(&p, reg); CHECK(*p == 0, "the reader stops before the end"); return l; }
    case 1: { w("</OpenScop>\n<arrays>"); f = sym_fmem_open(doc); l = osl_generic_read(f, reg); sym_fmem_close(f); return l; }
    case 2: for (int i = 0; i < items; i++) { g = osl_generic_sread_one(&p, reg); osl_generic_add(&l, g); } return l;
    default: f = sym_fmem_open(doc); for (int i = 0; i < items; i++) { g = osl_generic_read_one(f, reg); osl_generic_add(&l, g); } sym_fmem_close(f); return l; }
}
void h_documents(void) {
  long live = sym_heap_live(); zsetup(); ztext = 1; zwf = 1; zids = 12; zsym = 1; K = (int)sym_param("kinds", 3); way = (int)sym_param("way", 0); int items = (int)sym_param("items", 3), base = (int)sym_param("base", 0), rot = (int)sym_param("rot", 0), used[Z_EXT] = {0};
  if (sym_param("range", 0)) zrange = (int)sym_param("range", 0); else zrange = 9;
  static const int kall[] = {Z_ARRAYS, Z_COORD, Z_BODY, Z_SCATNAMES, Z_NULL, Z_SCATINFOS, Z_COMMENT, Z_CLAY, Z_EXTBODY, Z_LOOP, Z_PLUTO, Z_DEP, Z_STRINGS, Z_REGION, Z_ANNOT, Z_SYMBOLS};
  int symi = (int)sym_param("sym", 0), known = (int)sym_param("registry", 0), seen = 0;                       // 0: all the standard kinds; else without some
  if (known == 0) reg = osl_interface_get_default_registry(); else for (int i = 0; i < K; i++) if (known != 1 || i != 1) osl_interface_add(&reg, zinterface(kall[base + (known == 2 ? K - 1 - i : i)]));
  w(gap[way == 1 || way == 0 ? rot % 4 : 0]);
  for (int i = 0; i < items; i++) {
    int k = sym_pick("what", K + 1);
    if (k == K) { const char *t = unk[(rot + i) % 5]; w("<"); w(t); w(">\n"); w(junk[seen & 2 ? (rot + i) % 4 : sym_pick("junk", 4)]); if (!(seen & 2)) { char s[3] = {sym_ch("ch", "a\n#<>/ "), sym_ch("ch", "a\n#<>/ "), 0}; w(s); } w("</"); w(t); w(">\n"); seen |= 2; }
    else {
      int kind = kall[base + k]; if (used[kind]) { sym_done(); return; } used[kind] = 1;
      zat = -1; zsym = symi == i; zseed = i; void *o = zmake(kind, &before[dn]); char *t = zsprint(kind, o);
      w("<"); w(zuri[kind]); w(">\n"); w(t); w("</"); w(zuri[kind]); w(">\n"); free(t); zfree(kind, o);
      int have = osl_interface_lookup(reg, zuri[kind]) != NULL; if (have) { dk[dn++] = kind; seen |= 1; } else seen |= 4; }
    if (way < 2 || i < items - 1) w(gap[way < 2 ? (rot + i) % 4 : (rot + i) % 2]); }
  osl_generic_t *l = readdoc(items), *g = l;
  for (int i = 0; i < dn; i++, g = g->next) { CHECK(g != NULL, "a known extension is lost"); CHECK(osl_generic_has_URI(g, zuri[dk[i]]), "a known extension is taken for another"); zread(dk[i], g->data, &now); CHECK(same(&now, &before[i]), "a known extension reads differently among others"); CHECK(g->interface != osl_interface_lookup(reg, zuri[dk[i]]) && !g->interface->next, "an extension does not have its own interface"); }
  CHECK(g == NULL, "an unknown extension is kept");
  osl_generic_free(l); osl_interface_free(reg); sym_leak_check(live);
  sym_reach(seen & 2 ? "unknown" : "known");
}
// registering kinds for a scop that keeps its extensions as text
void h_register(void) {
  zsetup(); ztext = 1; zwf = 1; zids = 12; zsym = 1; zrange = 9; static const int kall[4] = {Z_ARRAYS, Z_COORD, Z_BODY, Z_SCATNAMES}; int cnt = (int)sym_param("items", 3), used[4] = {0}, ord[4], pos[4]; Str *b = before;
  long live = sym_heap_live(); w(gap[1]);
  for (int i = 0; i < cnt; i++) { int k = sym_pick("kind", 5); if (k == 4) { ord[i] = -1; w("<foo>\n1 2\n</foo>\n"); continue; } if (used[k]) { sym_done(); return; } used[k] = 1; ord[i] = k;
    zat = -1; zsym = i == 0; void *o = zmake(kall[k], &b[k]); char *t = zsprint(kall[k], o); w("<"); w(zuri[kall[k]]); w(">\n"); w(t); w("</"); w(zuri[kall[k]]); w(">\n"); free(t); zfree(kall[k], o); }
  osl_scop_t *s = osl_scop_malloc(); osl_generic_t *last = NULL; int text = sym_pick("text", 2);
  if (text) { osl_textual_t *x = osl_textual_malloc(); x->textual = zdup(doc); last = s->extension = osl_generic_shell(x, osl_textual_interface()); }
  int r = 0, regs = 0;
  for (int st = 0; st < (int)sym_param("steps", 2); st++) {
    int a = sym_pick("reg", 4), two = sym_pick("two", 2), c = (a + 1) % 4;
    if ((r >> a & 1) || (two && (r >> c & 1))) break;
    osl_interface_t *i = zinterface(kall[a]); if (two) i->next = zinterface(kall[c]);
    osl_generic_t *old[8]; int no = 0; for (osl_generic_t *g = s->extension; g; g = g->next) old[no++] = g;
    osl_scop_register_extension(s, i); regs++; r |= 1 << a; if (two) r |= 1 << c;
    CHECK(osl_interface_lookup(s->registry, zuri[kall[a]]) == i && (!two || osl_interface_lookup(s->registry, zuri[kall[c]]) == i->next), "the interface is not registered");
    osl_generic_t *g = s->extension; for (int j = 0; j < no; j++, g = g->next) CHECK(g == old[j], "registering lost an extension");
    if (text) for (int j = 0; j < cnt; j++) if (ord[j] == a || (two && ord[j] == c)) { CHECK(g && osl_generic_has_URI(g, zuri[kall[ord[j]]]), "a registered extension is not taken from the text"); zread(kall[ord[j]], g->data, &now); CHECK(same(&now, &b[ord[j]]), "an extension taken from the text differs"); g = g->next; }
    CHECK(g == NULL, "registering added something else");
    if (text) CHECK(!strcmp(((osl_textual_t *)last->data)->textual, doc), "registering altered the text"); }
  osl_scop_register_extension(s, NULL); osl_scop_register_extension(NULL, NULL);
  osl_scop_free(s); sym_leak_check(live); sym_reach("registered");
}
// equality of two lists: the same kinds with equal data, in any order
static osl_generic_t *glist(int base, int *kinds, int cnt) {
  osl_generic_t *l = NULL, *g; for (int i = 0; i < cnt; i++) { g = osl_generic_malloc(); g->interface = zinterface(kinds[i]); zseed = kinds[i]; g->data = zmake(kinds[i], &before[base + i]); osl_generic_add(&l, g); } return l;
}
static int chosen(int *k, int cnt) { for (int i = 0; i < cnt; i++) { k[i] = ks[sym_pick("kind", K)]; for (int j = 0; j < i; j++) if (k[i] == k[j]) return 0; } return 1; }
void h_generic_equal(void) {
  zsetup(); K = (int)sym_param("kinds", 3); int L = (int)sym_param("len", 3), many = (int)sym_param("many", 0), a = many ? many : sym_pick("a", L + 1), b = many ? many : sym_pick("b", L + 1), ka[12], kb[12]; long live = sym_heap_live();
  if (many) { int by = sym_pick("by", many); for (int i = 0; i < many; i++) { ka[i] = ks[i]; kb[i] = ks[(i + by) % many]; } if (sym_pick("other", 2)) kb[sym_pick("at", many)] = ks[many]; }   // many elements, turned round, perhaps with another one in the place of one
  else if (!chosen(ka, a) || !chosen(kb, b)) { sym_done(); return; }
  int one = b ? sym_pick("one", b + 1) : 0;                      // the element of the second list with an arbitrary integer
  zsym = 0; zat = -1; osl_generic_t *x = glist(0, ka, a), *y = NULL;
  for (int i = 0; i < b; i++) { osl_generic_t *g = osl_generic_malloc(); g->interface = zinterface(kb[i]); zseed = kb[i]; zsym = i + 1 == one; zrange = 0; g->data = zmake(kb[i], &now); osl_generic_add(&y, g); zread(kb[i], g->data, &before[10 + i]); }
  int want = a == b;
  for (int i = 0; i < a && want; i++) { int j = 0; while (j < b && kb[j] != ka[i]) j++; want = j < b && same(&before[i], &before[10 + j]); }
  sym_freeze();
  CHECK((osl_generic_equal(x, y) != 0) == want, "lists are equal exactly when they hold the same data of the same kinds, in any order");
  CHECK((osl_generic_equal(y, x) != 0) == want, "equality of lists depends on the order of the arguments");
  sym_unchanged("comparing lists altered them"); sym_thaw();
  if (want) sym_reach("equal"); else sym_reach("different");
  osl_generic_free(x); osl_generic_free(y); sym_leak_check(live);
}
