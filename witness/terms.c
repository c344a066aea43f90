/* replay: unification / matching / equality / trail of the real code against tree oracles */
#include "wit.h"
static void fail2(const char *w, T *a, T *b) { printf("FAIL: %s on ", w); tpr(a); printf("  and  "); tpr(b); printf("\n"); exit(1); }
static gint b0_[NROF_VARBANKS * NROF_VARSINBANK];
/* target variables of several banks with the same index within their bank */
static void spread(T *t, long lo) { int i; if (t->k == 0 && t->id >= lo) t->id = lo + (t->id % NROF_VARSINBANK) + rn(2) * NROF_VARSINBANK; for (i = 0; i < t->n; i++) spread(t->a[i], lo); }
static T *dupvars(T *t, int nv) { T *c; int i; if (nv < 1) return t; if (t->k == 0) return tnew(0, rn(1 + nv / 2)); if (t->k != 4) return t; c = tnew(4, 0); c->n = t->n; for (i = 0; i < t->n; i++) c->a[i] = i ? dupvars(t->a[i], nv) : t->a[i]; return c; }
int main(int argc, char **argv) {
  const char *mode = argc > 3 ? argv[3] : "unify";
  long it = 0;
  wit_init(argc, argv);
  banks_reset();
  while (!timeup()) {
    T *a, *b, *c; gint x, y; int r, o, d = 1 + rn(3), nv = rn(5), i;
    it++; bigc_ = rn(4) == 0;
    blk_reset();
    for (i = 0; i < NROF_VARBANKS * NROF_VARSINBANK; i += 1) { if (i % NROF_VARSINBANK >= 8) { i += NROF_VARSINBANK - 9; continue; } sub_[i] = NULL; }
    if (!strcmp(mode, "unify")) {
      int lo2 = rn(3) ? 0 : NROF_VARSINBANK, prob = rn(3);
      a = rterm(d, 0, nv); b = rn(2) ? tcopy(a, lo2, nv, 1) : rterm(d, lo2, nv);
      x = enc(a); y = enc(b);
      o = ounify(a, b);
      r = wr_unify_term(g_, x, y, 1);
      if (!r != !o) fail2(o ? "terms unify but unification fails" : "terms do not unify but unification succeeds", a, b);
      if (r) {
        T *ra, *rb; 
        decdepth_ = 0; ra = dec(x, 1); rb = dec(y, 1);
        if (!ra || !rb) fail2("unifier is cyclic or malformed", a, b);
        if (!teq(ra, rb)) fail2("bindings do not make the terms equal", a, b);
        varreset();
        if (!variant(ra, oapply(a))) fail2("unifier is not most general", a, b);
      }
      (void)prob;
      wr_clear_varstack(g_, g_->varstack);
      if ((it & 15) == 0 && !banks_clear()) fail2("bindings left after clearing the trail", a, b);
    } else if (!strcmp(mode, "match")) {
      a = rterm(d, 0, nv); b = rn(3) ? tcopy(a, NROF_VARSINBANK, rn(3), 1) : rterm(d, NROF_VARSINBANK, rn(3));
      if (rn(2)) a = dupvars(a, nv);
      if (rn(2)) { memset(sub_, 0, sizeof sub_); for (i = 0; i < nv; i++) sub_[i] = rterm(1, NROF_VARSINBANK, 2); b = oapply(a); if (rn(3) == 0) b = tcopy(b, NROF_VARSINBANK, 3, 1); memset(sub_, 0, sizeof sub_); }
      if (rn(3) == 0) spread(b, NROF_VARSINBANK);
      x = enc(a); y = enc(b);
      o = omatch(a, b);
      r = wr_match_term(g_, x, y, 1);
      if (!r != !o) fail2(o ? "instance not matched" : "matched but not an instance", a, b);
      if (r) for (i = 0; i < nv; i++) {
        T *v; decdepth_ = 0; v = (g_->varbanks)[i] == UNASSIGNED ? NULL : dec((g_->varbanks)[i], 0);
        if (!v != !sub_[i] || (v && !teq(v, sub_[i]))) fail2("matching substitution is wrong", a, b);
      }
      wr_clear_varstack(g_, g_->varstack);
      if ((it & 15) == 0 && !banks_clear()) fail2("bindings left after clearing the trail", a, b);
    } else if (!strcmp(mode, "equal")) {
      a = rterm(d, 0, nv); b = rn(4) ? tcopy(a, 0, nv, rn(2)) : rterm(d, 0, nv);
      x = enc(a); y = enc(b); o = teq(a, b);
      r = wr_equal_term(g_, x, y, 1);
      if (!r != !o) fail2(o ? "identical terms reported different" : "different terms reported equal", a, b);
      { gint eqencx; r = WR_EQUAL_TERM(g_, x, y, 1); }
      if (!r != !o) fail2(o ? "identical terms reported different (macro)" : "different terms reported equal (macro)", a, b);
      c = tcopy(b, 0, 0, 0);
      r = wr_equal_mod_vars_term(g_, x, enc(c), 1);
      if (!r != !o) fail2(o ? "identical terms reported different modulo banks" : "different terms reported equal modulo banks", a, b);
    } else if (!strcmp(mode, "trail")) {
      /* several unifications into one trail, then undo from a mark, then undo all */
      gptr vs = (gptr)(g_->varstack); gint mark = 2; int k, n = 1 + rn(4), hm = 0;
      for (k = 0; k < n; k++) {
        gint top0 = vs[1];
        if (rn(2) || k == 0) { mark = vs[1]; memcpy(b0_, g_->varbanks, sizeof b0_); hm = 1; }
        a = rterm(d, 0, nv); b = rn(2) ? tcopy(a, 0, nv, 1) : rterm(d, 0, nv);
        if (rn(3) == 0) { int q = 2 + rn(6); a = tnew(4, 0); b = tnew(4, 0); a->n = b->n = q; a->a[0] = b->a[0] = tnew(1, 7); for (i = 1; i < q; i++) { a->a[i] = tnew(0, 20 + i); b->a[i] = rn(4) ? rterm(1, 0, nv) : tnew(0, 20 + rn(8)); } }
        x = enc(a); y = enc(b);
        if (it & 1) { wr_unify_term(g_, x, y, 1); } else { b = rterm(d, NROF_VARSINBANK, nv); y = enc(b); wr_match_term(g_, x, y, 1); }
        if (vs[1] < top0) fail2("trail shrank", a, b);
        for (i = 2; i < vs[1]; i++) { gptr q = (gptr)vs[i]; if (q < (gptr)g_->varbanks || q >= (gptr)g_->varbanks + NROF_VARBANKS * NROF_VARSINBANK || *q == UNASSIGNED) fail2("trail entry is not an assigned variable", a, b); }
      }
      for (i = 0; i < 30; i++) if ((g_->varbanks)[i] != UNASSIGNED) { int f = 0; for (k = 2; k < vs[1]; k++) if ((gptr)vs[k] == (gptr)g_->varbanks + i) f = 1; if (!f) FAIL("bound variable %d missing from the trail", i); }
      if (wr_proper_substitution(g_, g_->varstack) != ({ int f = 0; for (i = 2; i < vs[1]; i++) if (!isvar(*(gptr)vs[i])) f = 1; f; })) FAIL("substitution classified wrongly");
      if (hm && rn(2)) { wr_clear_varstack_topslice(g_, g_->varstack, mark); if (vs[1] != mark) FAIL("trail top is not the mark after partial undo"); if (memcmp(b0_, g_->varbanks, sizeof b0_)) FAIL("partial undo did not restore the bindings at the mark (%ld)", (long)mark); }
      wr_clear_varstack(g_, g_->varstack);
      if (vs[1] != 2) FAIL("trail not empty after undo");
      if (!banks_clear()) FAIL("bindings left after clearing the trail");
      if (rn(50) == 0) { for (i = 0; i < 50; i++) (g_->varbanks)[rn(NROF_VARBANKS * NROF_VARSINBANK)] = encode_smallint(3); (g_->varbanks)[NROF_VARBANKS * NROF_VARSINBANK - 1] = encode_smallint(1); (g_->varbanks)[0] = encode_smallint(1); wr_clear_all_varbanks(g_); if (!banks_clear()) FAIL("bindings left after clearing the banks"); }
    }
  }
  printf("ok %ld iterations of %s\n", it, mode);
  return 0;
}
