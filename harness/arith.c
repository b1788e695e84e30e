// P07 (exact or stops), P08 (division family), P09 (comparison, conversion, precision of one integer)
#include "num.h"

// operands: full 64-bit range, or for multiple precision optionally beyond it
static I128 operand(const char *nm, int prec, int big) {
  long lo = sym_param("lo", LONG_MIN), hi = sym_param("hi", LONG_MAX);
  long v = sym_i64(nm, lo, hi);
  if (prec == MP && big) return (I128)v * ((I128)1 << 40) + 12345;
  return v;
}
enum { ADD, SUB, MUL, ADDSI, MULSI, INC, DEC, NEG, ABS };
void h_arith(void) {
  int op = (int)sym_param("op", 0), prec = (int)sym_param("prec", SP), alias = (int)sym_param("alias", 0), big = (int)sym_param("big", 0);
  long base = sym_heap_live();
  I128 a = operand("a", prec, big), b = 0, r;
  int si = 0;
  if (op == ADD || op == SUB) b = operand("b", prec, big);
  if (op == MUL) b = sym_i64("b", sym_param("blo", LONG_MIN), sym_param("bhi", LONG_MAX));
  if (op == ADDSI || op == MULSI) si = sym_int("si", INT_MIN, INT_MAX);
  if (alias == 3) b = a;
  switch (op) {
    case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break; case ADDSI: r = a + si; break;
    case MULSI: r = a * si; break; case INC: r = a + 1; break; case DEC: r = a - 1; break; case NEG: r = -a; break; default: r = a < 0 ? -a : a;
  }
  osl_int_t x = mk(prec, a), y = mk(prec, b), z = mk(prec, 77);
  osl_int_t *d = alias == 1 || alias == 3 ? &x : alias == 2 ? &y : &z;
  if (alias == 3) { osl_int_clear(prec, &y); y = x; }
  int fit = fits(prec, r);
  if (fit) { sym_exit_ok(0); } else { sym_exit_ok(1); sym_reach("too big"); }
  switch (op) {
    case ADD: osl_int_add(prec, d, x, y); break; case SUB: osl_int_sub(prec, d, x, y); break; case MUL: osl_int_mul(prec, d, x, y); break;
    case ADDSI: osl_int_add_si(prec, d, x, si); break; case MULSI: osl_int_mul_si(prec, d, x, si); break;
    case INC: osl_int_increment(prec, d, x); break; case DEC: osl_int_decrement(prec, d, x); break;
    case NEG: osl_int_oppose(prec, d, x); break; case ABS: osl_int_abs(prec, d, x); break;
  }
  sym_exit_ok(0);
  CHECK(fit, "a result that does not fit the precision was returned");
  CHECK(val(prec, *d) == r, "the result is not the exact one");
  if (d != &x) CHECK(val(prec, x) == a, "the first operand changed");
  if (d != &y && alias != 3) CHECK(val(prec, y) == b, "the second operand changed");
  sym_reach("exact");
  if (alias != 3) osl_int_clear(prec, &y);
  osl_int_clear(prec, &x); osl_int_clear(prec, &z);
  sym_leak_check(base);
}

enum { DIVEXACT, FDIVQ, FDIVR, FDIVQR, MOD, DIVISIBLE };
// reference by its own definition: floor quotient and remainder of 64-bit values held in 128 bits
void h_div(void) {
  int op = (int)sym_param("op", 0), prec = (int)sym_param("prec", SP), alias = (int)sym_param("alias", 0);
  long base = sym_heap_live();
  long la = sym_i64("a", sym_param("lo", LONG_MIN), sym_param("hi", LONG_MAX)), lb = sym_i64("b", sym_param("blo", LONG_MIN), sym_param("bhi", LONG_MAX));
  sym_assume(lb != 0);
  I128 a = la, b = lb, q, r;
  long tr = 0; int even = 1;
  if (lb == -1) { q = -a; r = 0; }
  else { long tq = la / lb; tr = la % lb; q = tq; r = tr; even = tr == 0; if (op == DIVEXACT) sym_assume(even); if (tr != 0 && ((tr < 0) != (lb < 0))) { q = q - 1; r = r + b; } }
  osl_int_t x = mk(prec, a), y = mk(prec, b), z = mk(prec, 77), w = mk(prec, 78);
  osl_int_t *d = alias == 1 ? &x : alias == 2 ? &y : &z, *e = &w;
  if (alias == 3) e = &x; if (alias == 4) e = &y;                // the remainder overwrites an operand
  int usesq = op == DIVEXACT || op == FDIVQ || op == FDIVQR;
  int fit = !usesq || fits(prec, q);
  if (fit) { sym_exit_ok(0); } else { sym_exit_ok(1); sym_reach("too big"); }
  int div = 0;
  switch (op) {
    case DIVEXACT: osl_int_div_exact(prec, d, x, y); break;
    case FDIVQ: osl_int_floor_div_q(prec, d, x, y); break;
    case FDIVR: osl_int_floor_div_r(prec, d, x, y); break;
    case FDIVQR: osl_int_floor_div_q_r(prec, d, e, x, y); break;
    case MOD: osl_int_mod(prec, d, x, y); break;
    case DIVISIBLE: div = osl_int_divisible(prec, x, y); break;
  }
  sym_exit_ok(0);
  CHECK(fit, "a quotient that does not fit the precision was returned");
  switch (op) {
    case DIVEXACT: case FDIVQ: CHECK(val(prec, *d) == q, "wrong quotient"); break;
    case FDIVR: CHECK(val(prec, *d) == r, "wrong floor remainder"); break;
    case FDIVQR: CHECK(val(prec, *d) == q, "wrong quotient"); CHECK(val(prec, *e) == r, "wrong floor remainder"); break;
    case MOD: { I128 m = tr; if (tr < 0) m = b < 0 ? m - b : m + b; CHECK(val(prec, *d) == m, "wrong modulo"); break; }
    case DIVISIBLE: if (div) CHECK(even, "reported divisible with a remainder"); else CHECK(!even, "reported not divisible without a remainder"); break;
  }
  sym_reach("exact");
  osl_int_clear(prec, &x); osl_int_clear(prec, &y); osl_int_clear(prec, &z); osl_int_clear(prec, &w);
  sym_leak_check(base);
}
// gcd: non-negative, divides both, and every common divisor up to the bound divides it
void h_gcd(void) {
  int prec = (int)sym_param("prec", SP), alias = (int)sym_param("alias", 0), lcm = (int)sym_param("lcm", 0);
  long B = sym_param("B", 20), S = sym_param("S", 1);          // both operands are multiples of S
  long la = sym_i64("a", -B, B), lb = sym_i64("b", -B, B);
  long base = sym_heap_live();
  osl_int_t x = mk(prec, (I128)la * S), y = mk(prec, (I128)lb * S), z = mk(prec, 77), *d = alias == 1 ? &x : alias == 2 ? &y : &z;
  if (lcm) osl_int_lcm(prec, d, x, y); else osl_int_gcd(prec, d, x, y);
  long g = (long)val(prec, *d);
  CHECK(g >= 0, "negative result");
  CHECK(g % S == 0, "the result is no multiple of a common factor"); g /= S;
  if (!lcm) {
    CHECK((g == 0) == (la == 0 && lb == 0), "the gcd is zero exactly for two zeros");
    if (g != 0) {
      CHECK(la % g == 0 && lb % g == 0, "the gcd does not divide the operands");
      int bad = 0;
      for (long k = 2; k <= B; k++) bad |= (la % k == 0) & (lb % k == 0) & (g % k != 0);
      CHECK(!bad, "a common divisor does not divide the gcd");
    }
  } else {
    CHECK((g == 0) == (la == 0 || lb == 0), "the lcm is zero exactly when one operand is");
    if (g != 0) { CHECK(g % la == 0 && g % lb == 0, "the lcm is not a common multiple");
      CHECK(g <= (la < 0 ? -la : la) * (lb < 0 ? -lb : lb), "the lcm is larger than the product");
      int bad = 0;
      for (long k = 1; k < B * B; k++) bad |= (k < g) & (k % la == 0) & (k % lb == 0);
      CHECK(!bad, "a smaller common multiple exists"); }
  }
  sym_reach("gcd");
  osl_int_clear(prec, &x); osl_int_clear(prec, &y); osl_int_clear(prec, &z);
  sym_leak_check(base);
}
// gcd at the edges of the range
void h_gcd_edge(void) {
  int prec = (int)sym_param("prec", SP);
  static const long edge[6] = {LONG_MIN, LONG_MIN + 1, LONG_MAX, -1, 0, 1};
  I128 a = edge[sym_pick("i", 6)], b = edge[sym_pick("j", 6)];
  I128 u = a < 0 ? -a : a, v = b < 0 ? -b : b, g;
  { unsigned long p = (unsigned long)u, q = (unsigned long)v; while (q) { unsigned long t = p % q; p = q; q = t; } g = p; }
  osl_int_t x = mk(prec, a), y = mk(prec, b), z = mk(prec, 77);
  int fit = fits(prec, g);
  sym_exit_ok(!fit);
  osl_int_gcd(prec, &z, x, y);
  sym_exit_ok(0);
  CHECK(fit, "a gcd that does not fit was returned");
  CHECK(val(prec, z) == g, "wrong gcd");
  sym_reach("edge");
}

// ------------------------------------------------------------------ P09
void h_cmp(void) {
  int prec = (int)sym_param("prec", SP), big = (int)sym_param("big", 0);
  I128 a = operand("a", prec, big), b = operand("b", prec, big);
  osl_int_t x = mk(prec, a), y = mk(prec, b);
#define B(e) ((e) != 0)
  CHECK(B(osl_int_eq(prec, x, y)) == (a == b), "eq"); CHECK(B(osl_int_ne(prec, x, y)) == (a != b), "ne");
  CHECK(B(osl_int_lt(prec, x, y)) == (a < b), "lt"); CHECK(B(osl_int_le(prec, x, y)) == (a <= b), "le");
  CHECK(B(osl_int_gt(prec, x, y)) == (a > b), "gt"); CHECK(B(osl_int_ge(prec, x, y)) == (a >= b), "ge");
  CHECK(B(osl_int_pos(prec, x)) == (a > 0), "pos"); CHECK(B(osl_int_neg(prec, x)) == (a < 0), "neg");
  CHECK(B(osl_int_zero(prec, x)) == (a == 0), "zero"); CHECK(B(osl_int_one(prec, x)) == (a == 1), "one"); CHECK(B(osl_int_mone(prec, x)) == (a == -1), "mone");
  CHECK(val(prec, x) == a && val(prec, y) == b, "a comparison changed its operand");
  sym_reach("cmp");
}
void h_set(void) {
  int prec = (int)sym_param("prec", SP);
  long base = sym_heap_live();
  int i = sym_int("i", INT_MIN, INT_MAX); long l = sym_i64("l", LONG_MIN, LONG_MAX);
  osl_int_t x, y, z, *m;
  osl_int_init(prec, &x); CHECK(val(prec, x) == 0, "initial value");
  osl_int_set_si(prec, &x, i); CHECK(val(prec, x) == i, "set_si"); CHECK(osl_int_get_si(prec, x) == i, "get_si");
  CHECK(osl_int_get_long(prec, x) == i && osl_int_get_long_long(prec, x) == i, "get_long of an int");
  osl_int_init_set_si(prec, &y, i); CHECK(val(prec, y) == i, "init_set_si");
  osl_int_init_set_long(prec, &z, l); CHECK(val(prec, z) == l, "init_set_long"); CHECK(osl_int_get_long(prec, z) == l, "get_long"); CHECK(osl_int_get_long_long(prec, z) == l, "get_long_long");
  osl_int_swap(prec, &x, &z); CHECK(val(prec, x) == l && val(prec, z) == i, "swap");
  osl_int_assign(prec, &y, x); CHECK(val(prec, y) == l && val(prec, x) == l, "assign");
  osl_int_set_long(prec, &z, l); CHECK(val(prec, z) == l, "set_long");
  osl_int_set_si(prec, &y, 5); CHECK(val(prec, x) == l, "assignment shares storage");
  osl_int_clear(prec, &z);
  osl_int_init_set_long_long(prec, &z, l); CHECK(val(prec, z) == l, "init_set_long_long");
  osl_int_set_long_long(prec, &y, l); CHECK(val(prec, y) == l, "set_long_long");
  osl_int_clear(prec, &y); osl_int_init_set(prec, &y, z); CHECK(val(prec, y) == l && val(prec, z) == l, "init_set");
  m = osl_int_malloc(prec); CHECK(val(prec, *m) == 0, "malloc"); osl_int_free(prec, m);
  osl_int_clear(prec, &x); osl_int_clear(prec, &y); osl_int_clear(prec, &z);
  sym_leak_check(base); sym_reach("set");
}
// narrowing reads give the value or stop
void h_get(void) {
  int prec = (int)sym_param("prec", SP), which = (int)sym_param("which", 0), big = (int)sym_param("big", 0);
  I128 a = operand("a", prec, big);
  osl_int_t x = mk(prec, a);
  int fit = which == 0 ? a >= INT_MIN && a <= INT_MAX : fits64(a);
  if (fit) { sym_exit_ok(0); sym_reach("fits"); } else { sym_exit_ok(1); sym_reach("too big"); }
  I128 g = which == 0 ? osl_int_get_si(prec, x) : which == 1 ? osl_int_get_long(prec, x) : osl_int_get_long_long(prec, x);
  sym_exit_ok(0);
  CHECK(fit, "a value that does not fit was returned"); CHECK(g == a, "the value changed");
}
void h_prec(void) {
  int p = (int)sym_param("from", SP), q = (int)sym_param("to", MP), big = (int)sym_param("big", 0);
  long base = sym_heap_live();
  I128 a = operand("a", p, big);
  osl_int_t x = mk(p, a);
  int fit = fits(q, a);
  if (fit) { sym_exit_ok(0); } else { sym_exit_ok(1); sym_reach("too big"); }
  osl_int_set_precision(p, q, &x);
  sym_exit_ok(0);
  CHECK(fit, "a value that does not fit was converted"); CHECK(val(q, x) == a, "the conversion changed the value");
  sym_reach("converted");
  osl_int_clear(q, &x); sym_leak_check(base);
}
// printing then parsing, at the same or another precision
void h_text(void) {
  int p = (int)sym_param("from", SP), q = (int)sym_param("to", SP), big = (int)sym_param("big", 0), fmt = (int)sym_param("fmt", 0);
  long base = sym_heap_live();
  I128 a = operand("a", p, big);
  osl_int_t x = mk(p, a), y = mk(q, 9);
  char buf[OSL_MAX_STRING];
  if (fmt) osl_int_sprint_txt(buf, p, x); else osl_int_sprint(buf, p, x);
  if (sym_param("file", 0)) { FILE *f = sym_fmem_new(); osl_int_print(f, p, x); fflush(f); CHECK(strcmp(sym_fmem_text(f), buf) == 0, "stream and string differ"); sym_fmem_close(f); }
  size_t len = strlen(buf);
  strcpy(buf + len, " 12");
  int fit = fits(q, a);
  if (fit) { sym_exit_ok(0); } else { sym_exit_ok(1); sym_reach("too big"); }
  char *pos = buf;
  osl_int_sread(&pos, q, &y);
  sym_exit_ok(0);
  CHECK(fit, "an integer beyond the precision was accepted");
  CHECK(val(q, y) == a, "the integer read back differs");
  CHECK(pos == buf + len, "the position is not just after the integer");
  CHECK(osl_int_sscanf(buf, q, &y) == (int)len, "the number of characters read is wrong");
  sym_reach("read"); osl_int_clear(p, &x); osl_int_clear(q, &y); sym_leak_check(base);
}
// text that is not an integer is refused
void h_text_bad(void) {
  int q = (int)sym_param("to", SP);
  char buf[4]; int n = (int)sym_param("n", 2);
  for (int i = 0; i < n; i++) buf[i] = sym_ch("c", "\t\n -+a.#x"); buf[n] = 0;
  osl_int_t y = mk(q, 9);
  sym_exit_ok(1);
  osl_int_sscanf(buf, q, &y);
  CHECK(0, "text without an integer was accepted");
}
// digits: a bit count within the documented bounds
void h_size(void) {
  int prec = (int)sym_param("prec", SP);
  I128 a = operand("a", prec, (int)sym_param("big", 0)), u = a < 0 ? -a : a;
  osl_int_t x = mk(prec, a);
  size_t n = osl_int_size_in_base_2(prec, x);
  CHECK(n >= 1, "size in base 2"); CHECK(u < ((I128)1 << n), "size in base 2 too small"); if (n > 1) CHECK(u >= ((I128)1 << (n - 1)), "size in base 2 too large");
  sym_reach("size2");
}
void h_size10(void) {
  int prec = (int)sym_param("prec", SP);
  int k = (int)sym_param("near", -1);
  I128 a, p = 1;
  if (k < 0) a = operand("a", prec, (int)sym_param("big", 0));
  else { for (int i = 0; i < k; i++) p *= 10; a = (sym_pick("sign", 2) ? p : -p) + sym_int("a", -12, 12); p = 1; }     // around a power of ten
  I128 u = a < 0 ? -a : a;
  osl_int_t x = mk(prec, a);
  size_t n = osl_int_size_in_base_10(prec, x);
  CHECK(n >= 1, "size in base 10");
  for (size_t i = 0; i < n; i++) p = p * 10;
  CHECK(u < p, "size in base 10 too small"); if (n > 1 && prec != MP) CHECK(u >= p / 10, "size in base 10 too large");
  CHECK(osl_int_is_precision_supported(prec), "supported precision");
  sym_reach("size10");
}
