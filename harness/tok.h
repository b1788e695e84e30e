// Independent view of the textual format: the tokens of a text, comments and blanks left out; and a writer of such texts.
#pragma once
#include "num.h"
#define TMAX 150000
static char T[TMAX]; static int L;
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static void put(const char *s) { while (*s) T[L++] = *s++; T[L] = 0; }
static void putn(char c, int n) { while (n-- > 0) T[L++] = c; T[L] = 0; }
static void puti(long v) { char s[24]; sprintf(s, "%ld", v); put(s); }
static int skip_from(const char *s, int p) { for (;;) { while (s[p] && sp(s[p])) p++; if (s[p] != '#') return p; while (s[p] && s[p] != '\n') p++; } }
// the text without comments, each run of blanks as one space (one newline where the run holds one); returns the length
static int plain(const char *s, char *d) {
  int n = 0, pend = 0;
  for (int p = 0; s[p];) {
    char c = s[p];
    if (c == '#') { while (s[p] && s[p] != '\n') p++; continue; }
    if (sp(c)) { if (c == '\n') pend = 2; else if (!pend) pend = 1; p++; continue; }
    if (n && pend) d[n++] = pend == 2 ? '\n' : ' ';
    pend = 0; d[n++] = c; p++;
  }
  d[n] = 0; return n;
}
static int same_text(const char *a, const char *b) { int bad = 0; for (int i = 0;; i++) { i += (int)sym_common(a + i, b + i); if (!a[i] || !b[i]) return !bad && a[i] == b[i]; bad |= a[i] != b[i]; } }
