/* replay: evaluation of arithmetic, comparison, type, list and string built-ins against exact oracles */
#include "wit.h"
typedef __int128 W;
enum { KI, KD, KU, KN, KL, KC, KV, KF };   /* int, double, distinct symbol, nil, list cell, constant, variable, other compound */
typedef struct V { int k; long i; double d; char s[40]; struct V *a, *b; gint e; } V;
static V pool_[4000]; static int pn_;
static gint sym(const char *s) { return wg_encode_uri(db_, (char *)s, NULL); }
static gint comp(const char *f, int n, gint *as) {
  gint *p = raw_rec(n + 1 + g_->unify_firstuseterm); int i;
  p[RECORD_HEADER_GINTS + g_->unify_funpos] = sym(f);
  for (i = 0; i < n; i++) p[RECORD_HEADER_GINTS + g_->unify_funarg1pos + i] = as[i];
  return encode_record(db_, p);
}
static const double de[] = {0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 3.0, -3.0, 7.0, -7.0, 2.0, -2.0, 9007199254740992.0, 9007199254740994.0, 9223372036854775808.0, -9223372036854775808.0, 9223372036854774784.0, 1e300, -1e300, 5e-324, 0.1, 0.3, 4503599627370497.5, 1152921504606846976.0};
static const long ie[] = {0, 1, -1, 2, -2, 3, -3, 5, -5, 7, -7, 9007199254740993L, 9007199254740992L, -9007199254740993L, 0x7fffffffffffffffL, -0x7fffffffffffffffL - 1, -0x7fffffffffffffffL, 0x7ffffffffffffffeL, 0x7ffffffffffffc00L, 1L << 60, -(1L << 60) - 1, 3037000500L, -3037000500L, 4294967296L, 1152921504606846977L};
static long ri_(void) { int r = rn(6); if (r < 3) return ie[rn(sizeof ie / sizeof *ie)]; if (r < 5) return rn(41) - 20; return ((((long)rnd()) << 40) ^ (((long)rnd()) << 20) ^ rnd()) >> rn(60); }
static double rd_(void) { int r = rn(6); if (r < 2) return de[rn(sizeof de / sizeof *de)]; if (r < 4) return (rn(161) - 80) / 4.0; if (r == 4) return (double)ri_(); { double d; long b = ((long)rnd() << 42) ^ ((long)rnd() << 21) ^ rnd(); memcpy(&d, &b, 8); return isfinite(d) ? d : 1.25; } }
static void rs_gen(char *s, int n) { int i, l = rn(n); for (i = 0; i < l; i++) s[i] = "ab$"[rn(20) ? rn(2) : 2]; s[l] = 0; }
static V *rv(int kinds, int depth) {   /* kinds: bit set of allowed kinds */
  V *v = &pool_[pn_++ % 4000]; int k; gint as[2];
  memset(v, 0, sizeof *v);
  do k = rn(8); while (!(kinds >> k & 1) || (k == KL && depth <= 0));
  v->k = k;
  switch (k) {
    case KI: v->i = ri_(); v->e = wg_encode_int(db_, v->i); break;
    case KD: v->d = rd_(); v->e = wg_encode_double(db_, v->d); break;
    case KU: rs_gen(v->s, rn(4) ? 6 : 38); if (rn(20) == 0) strcpy(v->s, "$nil"); v->e = wg_encode_uri(db_, v->s, "#"); break;
    case KN: v->e = sym("$nil"); break;
    case KL: v->a = rv(kinds, depth - 1); v->b = rv(rn(3) ? (1 << KN | 1 << KL) & kinds : kinds, depth - 1); as[0] = v->a->e; as[1] = v->b->e; v->e = comp("$list", 2, as); break;
    case KC: { static const char *cs[] = {"a", "ab", "b", "zz", "$lis", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"}; strcpy(v->s, "?"); v->i = rn(6); v->e = sym(cs[v->i]); break; }
    case KV: v->i = rn(3); v->e = encode_var(v->i); break;
    case KF: { static const char *fs[] = {"f", "$lists", "$lis", "$list"}; int n = 1 + rn(3); gint bs[3]; int i, q = rn(4); if (q == 3 && n == 2) n = 3; for (i = 0; i < n; i++) bs[i] = rv(kinds & ~(1 << KF | 1 << KL), 0)->e; v->e = comp(fs[q], n, bs); break; }
  }
  return v;
}
static void vp(V *v) { switch (v->k) { case KI: printf("%ld", v->i); break; case KD: printf("%.17g(real)", v->d); break; case KU: printf("\"%s\"", v->s); break; case KN: printf("[]"); break; case KL: printf("$list("); vp(v->a); printf(","); vp(v->b); printf(")"); break; case KC: printf("const%ld", v->i); break; case KV: printf("X%ld", v->i); break; default: printf("f(..)"); } }
static void rp(gint r) {
  if (r == ACONST_TRUE) printf("true"); else if (r == ACONST_FALSE) printf("false"); else switch (wg_get_encoded_type(db_, r)) { case WG_INTTYPE: printf("%ld", (long)wg_decode_int(db_, r)); break; case WG_DOUBLETYPE: printf("%.17g(real)", wg_decode_double(db_, r)); break; case WG_RECORDTYPE: printf("a term"); break; default: printf("value %ld", (long)r); } }
static void fail3(const char *why, const char *f, int n, V **as, gint r) { int i; printf("FAIL: %s: %s(", why, f); for (i = 0; i < n; i++) { if (i) printf(","); vp(as[i]); } printf(") evaluates to "); rp(r); printf("\n"); exit(1); }
/* three-valued: 1 equal, 0 different, -1 unknown */
static int veq(V *a, V *b) {
  int x, y;
  if (a->e == b->e) return 1;
  if (a->k == KV || b->k == KV || a->k == KC || b->k == KC || a->k == KF || b->k == KF) return (a->k == KC && b->k == KC && a->i == b->i) ? 1 : -1;
  if (a->k != b->k) return 0;
  switch (a->k) { case KI: return a->i == b->i; case KD: return a->d == b->d; case KU: return !strcmp(a->s, b->s); case KN: return 1; }
  x = veq(a->a, b->a); y = veq(a->b, b->b);
  if (!x || !y) return 0;
  return x == 1 && y == 1 ? 1 : -1;
}
/* certainly not the same term */
static int sdiff(V *a, V *b) {
  if (a->e == b->e) return 0;
  if (a->k != b->k) return 1;
  if (a->k == KF) return 0;
  if (a->k == KL) return sdiff(a->a, b->a) || sdiff(a->b, b->b);
  if (a->k == KC || a->k == KV) return a->i != b->i;
  return !veq(a, b);
}
static int cmpnum(V *a, V *b) {
  long double x = a->k == KI ? (long double)a->i : a->d, y = b->k == KI ? (long double)b->i : b->d;   /* exact: 64 bit significand */
  return x < y ? -1 : x > y;
}
static W fdiv(W a, W b) { W q = a / b; if (a % b && ((a < 0) != (b < 0))) q--; return q; }
static int fits(W x) { return x == (W)(long)x; }
static void isint(const char *f, int n, V **as, gint r, gint t, W x) {
  if (!fits(x)) { if (r != t) fail3("overflow not left unevaluated", f, n, as, r); return; }
  if (r == t) fail3("not evaluated", f, n, as, r);
  if (wg_get_encoded_type(db_, r) != WG_INTTYPE || wg_decode_int(db_, r) != (long)x) fail3("wrong integer", f, n, as, r);
}
static int same(double a, double b) { return a == b; }
static void isreal(const char *f, int n, V **as, gint r, gint t, double x) {
  if (!isfinite(x)) { if (r != t) fail3("result out of range not left unevaluated", f, n, as, r); return; }
  if (r == t) fail3("not evaluated", f, n, as, r);
  if (wg_get_encoded_type(db_, r) != WG_DOUBLETYPE || !same(wg_decode_double(db_, r), x)) fail3("wrong real", f, n, as, r);
}
static void isintegral(const char *f, int n, V **as, gint r, gint t, double x) {
  if (!isfinite(x) || !(x < 9223372036854775808.0) || !(x >= -9223372036854775808.0)) { if (r != t && wg_get_encoded_type(db_, r) != WG_DOUBLETYPE) fail3("result out of range not left unevaluated", f, n, as, r); return; }
  if (r == t) fail3("not evaluated", f, n, as, r);
  if (wg_get_encoded_type(db_, r) == WG_DOUBLETYPE ? !same(wg_decode_double(db_, r), x) : wg_get_encoded_type(db_, r) != WG_INTTYPE || wg_decode_int(db_, r) != (long)x) fail3("wrong integral value", f, n, as, r);
}
static void isbool(const char *f, int n, V **as, gint r, gint t, int b) { if (r == t) fail3("not evaluated", f, n, as, r); if (r != (b ? ACONST_TRUE : ACONST_FALSE)) fail3("wrong truth value", f, n, as, r); }
static void isleft(const char *f, int n, V **as, gint r, gint t) { if (r != t) fail3("evaluated outside its domain", f, n, as, r); }
static const char *fa[] = {"$sum", "$difference", "$product", "$quotient", "$quotient_e", "$quotient_t", "$quotient_f", "$remainder_e", "$remainder_t", "$remainder_f", "$remainder", "+", "-", "*", "/"};
static const char *f1[] = {"$floor", "$ceiling", "$truncate", "$round", "$to_int", "$to_real", "$uminus"};
static const char *fc[] = {"$less", "$lesseq", "$greater", "$greatereq", "="};
static const char *ft[] = {"$is_int", "$is_real", "$is_number"};
static const char *fl[] = {"$is_list", "$first", "$rest", "$is_atom", "$is_distinct", "$is_map"};
static const char *fs_[] = {"$strlen", "$substr", "$substrat", "$is_substr"};
int main(int argc, char **argv) {
  const char *mode = argc > 3 ? argv[3] : "arith"; long it = 0; int ar = !strcmp(mode, "arith"), cm = !strcmp(mode, "compare");
  wit_init(argc, argv); g_->use_comp_arithmetic = 1;
  while (!timeup() && it < 6000000) {
    const char *f; V *as[4]; gint es[4], t, r; int n = 2, i, all = (1 << 8) - 1, num = 1 << KI | 1 << KD, c, j; gptr tp;
    it++; blk_reset(); pn_ = 0;
    if (it % 300000 == 0) { wg_delete_local_database(db_); wit_init(argc, argv); seedrng(it + (argc > 1 ? atol(argv[1]) : 1)); t_end_ = t_end_; g_->use_comp_arithmetic = 1; blk_reset(); }
    if (ar) { if (rn(4)) { f = fa[rn(15)]; as[0] = rv(rn(12) ? num : all, 1); as[1] = rv(rn(12) ? num : all, 1); if (rn(3) == 0) { as[0]->k == KI && as[1]->k == KI ? 0 : 0; } } else { f = f1[rn(7)]; n = 1; as[0] = rv(rn(12) ? num : all, 1); } }
    else if (cm) { if (rn(5)) { int typed = num | 1 << KU | 1 << KN | 1 << KL; f = fc[rn(5)]; i = rn(3) ? num : rn(2) ? typed : all; as[0] = rv(i, 2); as[1] = rv(i, 2);
        if (rn(3) == 0) { pn_ -= 0; as[1] = rn(2) ? as[0] : as[1]; }
        if (rn(4) == 0 && as[0]->k == KI) { as[1] = rv(1 << KD, 0); as[1]->d = (double)as[0]->i; as[1]->e = wg_encode_double(db_, as[1]->d); if (rn(2)) { V *q = as[0]; as[0] = as[1]; as[1] = q; } } }
      else { f = ft[rn(3)]; n = 1; as[0] = rv(rn(2) ? num : all, 1); } }
    else if (rn(2)) { f = fl[rn(6)]; n = 1; as[0] = rv(all, 2); if (rn(8) == 0) { n = 2; as[1] = rv(all, 0); } }
    else { int u = rn(5) ? 1 << KU : all; f = fs_[rn(4)]; n = !strcmp(f, "$strlen") ? 1 : !strcmp(f, "$substrat") ? 3 : 2; as[0] = rv(u, 1); as[1] = rv(u, 1); as[2] = rv(rn(8) ? 1 << KI : all, 0);
      if (as[0]->k == KU && as[1]->k == KU && rn(2)) { int l = strlen(as[1]->s), o = rn(l + 1), m = rn(l - o + 1); memcpy(as[0]->s, as[1]->s + o, m); as[0]->s[m] = 0; if (m && rn(5) == 0) as[0]->s[m - 1] ^= 3; as[0]->e = wg_encode_uri(db_, as[0]->s, "#"); if (as[2]->k == KI) { as[2]->i = rn(4) ? o : rn(10) - 3; as[2]->e = wg_encode_int(db_, as[2]->i); } }
      if (n == 3 && rn(20) == 0) n = 2; }
    if (rn(60) == 0) n--;
    for (i = 0; i < n; i++) es[i] = as[i]->e;
    t = comp(f, n, es); tp = decode_record(db_, t);
    c = wr_computable_termptr(g_, tp);
    if (!c) FAIL("%s is not recognised as computable", f);
    r = wr_compute_from_termptr(g_, tp, c);
    if (r == WG_ILLEGAL) continue;
    for (j = 0; j < 15; j++) if (f == fa[j]) break;
    if (j < 15) {
      int op = j < 10 ? j : j == 10 ? 7 : j == 11 ? 0 : j == 12 ? 1 : j == 13 ? 2 : 3;
      if (n < 2 || (as[0]->k != KI && as[0]->k != KD) || (as[1]->k != KI && as[1]->k != KD)) { isleft(f, n, as, r, t); continue; }
      if (as[0]->k == KI && as[1]->k == KI) {
        W a = as[0]->i, b = as[1]->i, x;
        if (op > 2 && !b) { isleft(f, n, as, r, t); continue; }
        switch (op) { case 0: x = a + b; break; case 1: x = a - b; break; case 2: x = a * b; break; case 3: case 5: x = a / b; break; case 6: x = fdiv(a, b); break; case 4: x = (a - ((a % b) + (a % b < 0 ? (b < 0 ? -b : b) : 0))) / b; break;
          case 7: x = a % b; if (x < 0) x += b < 0 ? -b : b; break; case 8: x = a % b; break; default: x = a - fdiv(a, b) * b; }
        isint(f, n, as, r, t, x);
      } else {
        double a = as[0]->k == KI ? (double)as[0]->i : as[0]->d, b = as[1]->k == KI ? (double)as[1]->i : as[1]->d, m;
        if (op > 2 && b == 0) { isleft(f, n, as, r, t); continue; }
        if (op < 4) isreal(f, n, as, r, t, op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b);
        else if (op < 7) isintegral(f, n, as, r, t, op == 5 ? trunc(a / b) : op == 6 || b > 0 ? floor(a / b) : ceil(a / b));
        else { m = fmod(a, b); if (op == 7 && m < 0) m += fabs(b); if (op == 9 && m != 0 && (m < 0) != (b < 0)) m += b; isreal(f, n, as, r, t, m); }
      }
      continue;
    }
    for (j = 0; j < 7; j++) if (f == f1[j]) break;
    if (j < 7) {
      if (n < 1 || (as[0]->k != KI && as[0]->k != KD)) { isleft(f, n, as, r, t); continue; }
      if (as[0]->k == KI) { W a = as[0]->i; if (j == 6) isint(f, n, as, r, t, -a); else if (j == 5) isreal(f, n, as, r, t, (double)as[0]->i); else isint(f, n, as, r, t, a); }
      else { double d = as[0]->d; switch (j) { case 0: case 4: isintegral(f, n, as, r, t, floor(d)); break; case 1: isintegral(f, n, as, r, t, ceil(d)); break; case 2: isintegral(f, n, as, r, t, trunc(d)); break;
          case 3: if (fabs(d - trunc(d)) != 0.5) isintegral(f, n, as, r, t, round(d)); break; case 5: isreal(f, n, as, r, t, d); break; case 6: isreal(f, n, as, r, t, -d); } }
      continue;
    }
    for (j = 0; j < 5; j++) if (f == fc[j]) break;
    if (j == 4) { int q;
      if (n < 2) { isleft(f, n, as, r, t); continue; }
      q = veq(as[0], as[1]);
      if (q < 0) { if (r == ACONST_FALSE || (r == ACONST_TRUE && sdiff(as[0], as[1]))) fail3("decided an open equality", f, n, as, r); continue; }
      if (r == ACONST_TRUE && !q) fail3("different values equal", f, n, as, r);
      if (r == ACONST_FALSE && q) fail3("equal values different", f, n, as, r);
      if (r == t && as[0]->k <= KU && as[1]->k <= KU) fail3("not evaluated", f, n, as, r);
      if (r != t && r != ACONST_TRUE && r != ACONST_FALSE) fail3("not a truth value", f, n, as, r);
      continue; }
    if (j < 4) { int q;
      if (n < 2) { isleft(f, n, as, r, t); continue; }
      if ((as[0]->k != KI && as[0]->k != KD) || (as[1]->k != KI && as[1]->k != KD)) { if (r != t && !(r == (j % 2 ? ACONST_TRUE : ACONST_FALSE))) fail3("evaluated outside its domain", f, n, as, r); if (r != t && veq(as[0], as[1]) != 1 && as[0]->k != KF && as[0]->k != KL) fail3("evaluated outside its domain", f, n, as, r); continue; }
      q = cmpnum(as[0], as[1]);
      isbool(f, n, as, r, t, j == 0 ? q < 0 : j == 1 ? q <= 0 : j == 2 ? q > 0 : q >= 0);
      continue; }
    for (j = 0; j < 3; j++) if (f == ft[j]) break;
    if (j < 3) { int k = as[0]->k; if (n < 1) { isleft(f, n, as, r, t); continue; }
      if (k == KI) isbool(f, n, as, r, t, j != 1); else if (k == KD) isbool(f, n, as, r, t, j != 0); else if (k == KU) isbool(f, n, as, r, t, 0); else if (k == KC || k == KV) isleft(f, n, as, r, t); else if (r == ACONST_TRUE) fail3("wrong truth value", f, n, as, r);
      continue; }
    for (j = 0; j < 6; j++) if (f == fl[j]) break;
    if (j < 6) { int k = n ? as[0]->k : -1; if (n < 1) { isleft(f, n, as, r, t); continue; }
      if (j == 1 || j == 2) { if (k == KL && n == 1) { if (r != (j == 1 ? as[0]->a->e : as[0]->b->e)) fail3("wrong part of the list", f, n, as, r); } else isleft(f, n, as, r, t); continue; }
      if (k == KL || k == KN) { if (n == 1 && j == 0) isbool(f, n, as, r, t, 1); else if (r != t) isbool(f, n, as, r, t, j == 0 || (j == 3 && k == KN)); continue; }
      if (k == KI || k == KD) isbool(f, n, as, r, t, j == 3);
      else if (k == KU) isbool(f, n, as, r, t, j == 3 || j == 4);
      else if (k == KC && j == 3) { if (r == ACONST_FALSE) fail3("wrong truth value", f, n, as, r); }
      else isleft(f, n, as, r, t);
      continue; }
    if (f == fs_[0]) { if (n == 1 && as[0]->k == KU) isint(f, n, as, r, t, strlen(as[0]->s)); else if (n != 1 || as[0]->k != KU) isleft(f, n, as, r, t); continue; }
    if (n < 2 || as[0]->k != KU || as[1]->k != KU) { isleft(f, n, as, r, t); continue; }
    if (f == fs_[1] || f == fs_[3]) { isbool(f, n, as, r, t, strstr(as[1]->s, as[0]->s) != NULL); continue; }
    if (n < 3 || as[2]->k != KI) { isleft(f, n, as, r, t); continue; }
    { long k = as[2]->i, la = strlen(as[0]->s), lb = strlen(as[1]->s); isbool(f, n, as, r, t, k >= 0 && k <= lb && la <= lb - k && !strncmp(as[1]->s + k, as[0]->s, la)); }
  }
  printf("ok %ld terms\n", it);
  return 0;
}
