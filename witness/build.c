/* replay: building instances (substitution, copying, renaming, subterm replacement) against tree oracles */
#include "wit.h"
static void fail2(const char *w, T *a) { printf("FAIL: %s on ", w); tpr(a); printf("\n"); exit(1); }
static cvec buf_;
static void bufreset(void) { CVEC_NEXT(buf_) = CVEC_START; }
/* positions in the replacement order: arguments left to right, depth first, bound variables not entered */
static T *orepl(T *t, int *path, int pos, T *rt, int subst, int counting) {
  T *c; int i;
  if (counting && *path == pos) return subst ? oapply(rt) : rt;
  if (t->k == 0) return subst ? oapply(t) : t;
  if (t->k != 4) return t;
  c = tnew(4, 0); c->n = t->n;
  c->a[0] = t->a[0];
  for (i = 1; i < t->n; i++) {
    (*path)++;
    if (*path <= pos) c->a[i] = orepl(t->a[i], path, pos, rt, subst, counting);
    else c->a[i] = subst ? oapply(t->a[i]) : t->a[i];
  }
  return c;
}
static int varsin(T *t, long lo, long hi) {
  int i;
  if (t->k == 0) return t->id >= lo && t->id < hi;
  for (i = 0; i < t->n; i++) if (!varsin(t->a[i], lo, hi)) return 0;
  return 1;
}
static int npos(T *t) { int i, n = 0; if (t->k != 4) return 0; for (i = 1; i < t->n; i++) n += 1 + npos(t->a[i]); return n; }
static void setup(int d) {
  int i, b;
  for (b = 0; b < 2; b++) for (i = 0; i < 6; i++) {
    int v = b * NROF_VARSINBANK + i; T *t;
    sub_[v] = NULL; (g_->varbanks)[v] = UNASSIGNED;
    if (rn(3)) continue;
  }
  /* acyclic: a variable is bound to a term over later variables */
  for (i = 0; i < 5; i++) { if (rn(2)) continue; { T *t = rterm(rn(d + 1), i + 1, 5 - i); sub_[i] = t; (g_->varbanks)[i] = enc(t); } }
}
int main(int argc, char **argv) {
  const char *mode = argc > 3 ? argv[3] : "subst"; long it = 0; int i;
  wit_init(argc, argv); banks_reset();
  buf_ = wr_cvec_new(g_, 100000);
  g_->use_comp_funs = 0; g_->build_rewrite = 0; g_->build_calc = 0;
  g_->tmp_unify_vc = ((gptr)(g_->varstack)) + 1;
  while (!timeup()) {
    T *a, *e, *r; gint x, y; int ren = rn(2), sub = rn(4) != 0, k, d = 1 + rn(3), bank = rn(3), vc0, nt = 1 + rn(3);
    it++; blk_reset(); bufreset(); setup(d);
    g_->build_buffer = (it % 200 == 0) ? NULL : buf_;
    if (it % 500 == 0 && it > 20000) g_->build_buffer = buf_;
    if (ren) sub = 1;
    if (!strcmp(mode, "copy")) { ren = 0; sub = 0; }
    g_->build_subst = sub; g_->build_rename = ren; g_->build_rename_banknr = bank; g_->build_rename_vc = ren && rn(2) ? rn(40) : 0; vc0 = g_->build_rename_vc;
    varreset();
    if (!strcmp(mode, "clause")) {
      int n = 1 + rn(4); gint *cl, *cp, ats[4]; T *ts[4]; gint ms[4];
      for (k = 0; k < n; k++) { ts[k] = rterm(d, 0, 5); if (ts[k]->k != 4) { T *q = tnew(4, 0); q->n = 2; q->a[0] = tnew(1, 7); q->a[1] = ts[k]; ts[k] = q; } ats[k] = enc(ts[k]); ms[k] = encode_smallint(rn(2) ? 0 : ATOM_META_NEG) ; }
      if (n == 1 && rn(2)) { cl = decode_record(db_, ats[0]); }
      else {
        cl = raw_rec(CLAUSE_EXTRAHEADERLEN + n * LIT_WIDTH); cl[RECORD_META_POS] = RECORD_META_RULE_CLAUSE; cl[RECORD_HEADER_GINTS] = encode_smallint(rn(1000));
        for (k = 0; k < n; k++) { cl[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + k * LIT_WIDTH + LIT_META_POS] = ms[k]; cl[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + k * LIT_WIDTH + LIT_ATOM_POS] = ats[k]; }
      }
      cp = wr_build_calc_cl(g_, cl);
      if (!cp) FAIL("clause building failed");
      if (cp[0] != cl[0] || cp[RECORD_META_POS] != cl[RECORD_META_POS]) FAIL("clause header changed");
      for (k = 0; k < n; k++) {
        gint at = (cl[RECORD_META_POS] & RECORD_META_RULE_CLAUSE) ? cp[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + k * LIT_WIDTH + LIT_ATOM_POS] : encode_record(db_, cp);
        if ((cl[RECORD_META_POS] & RECORD_META_RULE_CLAUSE)) {
          if (cp[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + k * LIT_WIDTH + LIT_META_POS] != ms[k]) fail2("literal sign changed in", ts[k]);
          if (cp[RECORD_HEADER_GINTS] != cl[RECORD_HEADER_GINTS]) fail2("clause extra header changed in", ts[k]);
        }
        decdepth_ = 0; r = dec(at, 0); e = sub ? oapply(ts[k]) : ts[k];
        if (!r) fail2("malformed literal built", ts[k]);
        if (!ren) { if (!teq(r, e)) fail2("built literal is not the instance", ts[k]); }
        else { if (!variant(e, r)) fail2("renamed literal is not a variant of the instance", ts[k]);
          if (!varsin(r, bank * NROF_VARSINBANK, (bank + 1) * NROF_VARSINBANK)) fail2("renamed literal has a variable outside the bank", ts[k]); }
      }
    } else if (!strcmp(mode, "replace")) {
      T *rt = rterm(1, 0, 5); int path = 0, p2 = 0, np, pos; gint rx;
      a = rterm(d, 0, 5); if (a->k != 4) continue;
      x = enc(a); rx = enc(rt); np = npos(a); pos = 1 + rn(np + 1);
      y = wr_build_calc_term_replace(g_, x, pos, rx, &path);
      e = orepl(a, &p2, pos, rt, sub, 1);
      decdepth_ = 0; r = dec(y, 0);
      if (!r) fail2("malformed term built", a);
      if (!ren) { if (!teq(r, e)) { printf("position %d replacement ", pos); tpr(rt); printf(" result "); tpr(r); printf("\n"); fail2("replacement result is wrong", a); } }
      else { if (!variant(e, r)) fail2("renamed replacement result is wrong", a);
        if (!varsin(r, bank * NROF_VARSINBANK, (bank + 1) * NROF_VARSINBANK)) fail2("renamed term has a variable outside the bank", a); }
    } else for (k = 0; k < nt; k++) {
      a = rterm(d, 0, 5); x = enc(a);
      y = wr_build_calc_term(g_, x);
      decdepth_ = 0; r = dec(y, 0);
      if (!r) fail2("malformed term built", a);
      e = sub ? oapply(a) : a;
      if (!ren) { if (!teq(r, e)) fail2("built term is not the instance", a); }
      else {
        if (!variant(e, r)) fail2("renamed term is not a variant of the instance", a);
        if (!varsin(r, bank * NROF_VARSINBANK + (0), (bank + 1) * NROF_VARSINBANK)) fail2("renamed term has a variable outside the bank", a);
        if (g_->build_rename_vc < vc0) fail2("variable counter decreased", a);
      }
    }
    wr_clear_varstack(g_, g_->varstack);
    if (ren) for (i = 0; i < 5; i++) (g_->varbanks)[i] = UNASSIGNED;
  }
  printf("ok %ld iterations of %s\n", it, mode);
  return 0;
}
