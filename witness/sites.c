/* replay harness for the inference sites: which literals and terms resolution, factoring, reflexivity and
   paramodulation are performed on, and what paramodulation makes of them */
/* link: -Wl,--wrap=wr_process_paramodulate_result -Wl,--wrap=wr_process_resolve_result -Wl,--wrap=wr_process_factor_result */
#define ML 310
#define NOMAIN
#include "clauses.c"
static int nact_; static C *giv_; static long ncalls_; static int index_; static char hit_[10][4][4]; static long npairs_;
static C *findc(gptr r) { int i; for (i = 0; i < NCL; i++) if (cl_[i].n && cl_[i].rec == (gint *)r) return cl_ + i; return NULL; }
static T *inst(gint e) { decdepth_ = 0; return dec(e, 1); }
static int isact(C *c) { return c && c != giv_ && c < cl_ + nact_; }
static T *eqatom(T *a, T *b) { T *t = tnew(4, 0); t->n = 3; t->a[0] = tnew(1, CEQ); t->a[1] = a; t->a[2] = b; return t; }
static int iseq(T *t) { return t->n >= 3 && t->a[0]->k == 1 && t->a[0]->id == CEQ; }
/* subterm number pos in depth-first order, functors not counted; with by: replaced */
static T *subat(T *t, long *pos) { int i; T *r; if (*pos == 0) return t; if (t->k != 4) return NULL; for (i = 1; i < t->n; i++) { --*pos; if ((r = subat(t->a[i], pos))) return r; } return NULL; }
static T *subput(T *t, long *pos, T *by) { int i; T *c; if ((*pos)-- == 0) return by; if (t->k != 4) return t; c = tnew(4, 0); c->n = t->n; c->a[0] = t->a[0]; for (i = 1; i < t->n; i++) c->a[i] = subput(t->a[i], pos, by); return c; }
/* tree with the bindings of the real banks */
static T *tinstb(T *t) { int i; T *c; if (t->k == 0) return (g_->varbanks)[t->id] == UNASSIGNED ? t : inst((g_->varbanks)[t->id]); if (t->k != 4) return t; c = tnew(4, 0); c->n = t->n; for (i = 0; i < t->n; i++) c->a[i] = i ? tinstb(t->a[i]) : t->a[0]; return c; }
void __real_wr_process_paramodulate_result(glb *g, gint xatom, gptr xcl, gint yatom, gptr ycl, gptr act, gint a, gint b, gint path, int leftflag, int fromflag);
static C o_;
static void addlit(int neg, T *t, int *drop) { int j; for (j = 0; j < o_.n; j++) if (teq(o_.t[j], t)) { if (o_.neg[j] != neg) *drop = 1; return; } o_.neg[o_.n] = neg; o_.t[o_.n++] = t; }
void __wrap_wr_process_paramodulate_result(glb *g, gint xatom, gptr xcl, gint yatom, gptr ycl, gptr act, gint a, gint b, gint path, int leftflag, int fromflag) {
  C *e = findc(xcl), *c = findc(ycl); int i, k, ln, drop = 0; long p, q; T *ta, *tb, *s; gint *w = NULL, disc;
  ncalls_++;
  if (!e || !c || e == c || (e != giv_ && c != giv_) || (!isact(e) && !isact(c))) FAIL("paramodulation on clauses that were not given");
  if (!fromflag != (c == giv_)) fail_c("direction of paramodulation reported wrongly", e, c);
  for (k = 0; k < e->n; k++) if (e->at[k] == xatom && !e->neg[k]) break;
  if (k == e->n || !iseq(e->t[k])) fail_c("paramodulation with a literal that is not a positive equation of its clause", e, c);
  ta = e->t[k]->a[leftflag ? 1 : 2]; tb = e->t[k]->a[leftflag ? 2 : 1];
  decdepth_ = 0; s = dec(a, 0); if (!s || !teq(s, ta)) printf("literal %d\n", k), fail_c("unified term is not the named side of the equation", e, c);
  decdepth_ = 0; s = dec(b, 0); if (!s || !teq(s, tb)) fail_c("replacement is not the other side of the equation", e, c);
  ln = wr_decode_para_termpath_litnr(g, path); p = q = wr_decode_para_termpath_pos(g, path);
  if (ln < 0 || ln >= c->n || p < 1) fail_c("replaced literal does not exist", e, c);
  s = subat(c->t[ln], &q);
  if (!s) { printf("literal %d position %ld\n", ln, p); fail_c("replaced position does not exist", e, c); }
  if (!teq(tinstb(s), inst(a))) { printf("literal %d position %ld: ", ln, p); tpr(tinstb(s)); printf(" / "); tpr(inst(a)); printf("\n"); fail_c("replaced subterm is not equal to the unified side of the equation", e, c); }
  if (e->n + c->n > 60) return;
  o_.n = 0;
  for (i = 0; i < e->n && !drop; i++) if (i != k && e->at[i] != xatom) addlit(e->neg[i], tinstb(e->t[i]), &drop);
  for (i = 0; i < c->n && !drop; i++) { q = p; addlit(c->neg[i], tinstb(i == ln ? subput(c->t[i], &q, tb) : c->t[i]), &drop); }
  tabzero_(g_->hash_pos_groundunits); tabzero_(g_->hash_neg_groundunits); tabzero_(g_->hash_pos_grounddoubles); tabzero_(g_->hash_neg_grounddoubles); disc = g_->stat_weight_discarded_cl;
  queued_(&w); w = NULL; ((cvec)g_->queue_termbuf)[1] = 2; ((cvec)g_->hyper_termbuf)[1] = 2; g_->alloc_err = 0;
  __real_wr_process_paramodulate_result(g, xatom, xcl, yatom, ycl, act, a, b, path, leftflag, fromflag);
  i = queued_(&w);
  if (g_->proof_found) fail_c("contradiction reported for a step that has literals left", e, c);
  if (g_->alloc_err) { g_->alloc_err = 0; return; }
  if (!i) { if (!drop && disc == g_->stat_weight_discarded_cl && !(o_.n == 1 && o_.neg[0] == 0 && iseq(o_.t[0]) && teq(o_.t[0]->a[1], o_.t[0]->a[2]))) { for (i = 0; i < o_.n; i++) if (!o_.neg[i] && iseq(o_.t[i]) && teq(o_.t[i]->a[1], o_.t[i]->a[2])) return; printf("literal %d position %ld, expected ", ln, p); lpr(&o_); printf("\n"); fail_c("paramodulant lost without a reason", e, c); } return; }
  if (drop) return;
  { int rule = wg_rec_is_rule_clause(db_, w), len = rule ? wg_count_clause_atoms(db_, w) : 1;
    for (i = 0; i < len && i < ML; i++) { decdepth_ = 0; wl_[i] = dec(rule ? wg_get_rule_clause_atom(db_, w, i) : encode_record(db_, w), 0); if (!wl_[i]) fail_c("ill-formed literal in the paramodulant", e, c);
      wn_[i] = rule && wg_atom_meta_is_neg(db_, wg_get_rule_clause_atom_meta(db_, w, i)); }
    memset(ren_, -1, sizeof ren_); memset(inv_, -1, sizeof inv_); omask_ = 0;
    for (i = 0; i < o_.n && i < 31; i++) if (o_.neg[i] && iseq(o_.t[i]) && teq(o_.t[i]->a[1], o_.t[i]->a[2])) omask_ |= 1 << i;
    if (!submatch(&o_, 0, 0, len)) { printf("literal %d position %ld, expected ", ln, p); lpr(&o_); printf("  got "); for (i = 0; i < len; i++) { printf(i ? " | %s" : "%s", wn_[i] ? "-" : ""); tpr(wl_[i]); } printf("\n"); fail_c("paramodulant is not the clause with the subterm replaced", e, c); } }
}
void __wrap_wr_process_resolve_result(glb *g, gint xatom, gptr xcl, gint yatom, gptr ycl, gptr act) {
  C *c = findc(xcl), *d = findc(ycl); int i, j, ok = 0; T *s, *t;
  ncalls_++;
  if (c != giv_ || !isact(d)) FAIL("resolution on clauses that were not given");
  s = inst(xatom); t = inst(yatom);
  if (!s || !t || !teq(s, t)) fail_c("resolution on literals that do not unify", c, d);
  for (i = 0; i < c->n; i++) for (j = 0; j < d->n; j++) if (c->at[i] == xatom && d->at[j] == yatom && c->neg[i] != d->neg[j]) { ok = 1; if (index_) hit_[d - cl_][i][j] = 1; }
  if (!ok) fail_c("resolution on literals that are not complementary literals of the two clauses", c, d);
}
void __wrap_wr_process_factor_result(glb *g, gptr xcl, int len, int xnr, gint xatom, int ynr, gint yatom, gptr act) {
  C *c = findc(xcl); T *s, *t;
  ncalls_++;
  if (!c || c != giv_) FAIL("factoring of a clause that was not given");
  if (xnr < 0 || xnr >= c->n || ynr >= c->n || c->at[xnr] != xatom) fail_c("factored literal is not in the clause", c, NULL);
  if (len != c->n) fail_c("wrong clause length", c, NULL);
  if (ynr >= 0) { if (ynr == xnr || c->at[ynr] != yatom || c->neg[xnr] != c->neg[ynr]) fail_c("factoring of literals that are not two literals of the same sign", c, NULL);
    s = inst(xatom); t = inst(yatom); if (!s || !t || !teq(s, t)) fail_c("factoring of literals that do not unify", c, NULL); }
  else { if (!c->neg[xnr] || !iseq(c->t[xnr])) fail_c("reflexivity applied to a literal that is not a negative equation", c, NULL);
    if (!teq(tinstb(c->t[xnr]->a[1]), tinstb(c->t[xnr]->a[2]))) fail_c("reflexivity applied to sides that do not unify", c, NULL); }
}
static void tz(gint f) { gint *t = rotp(g_, f); memset(t + 1, 0, 8 * (t[0] - 1)); }
static void tabz(glb *g, int para) { if (para) { tz(g->hash_para_terms); tz(g->hash_eq_terms); } else { tz(g->hash_pos_atoms); tz(g->hash_neg_atoms); } }
static T *seen_[40]; static int nseen_;
static void note(T *t) { int i; if (t->k == 0) return; if (nseen_ < 40) seen_[nseen_++] = t; if (t->k == 4) for (i = 1; i < t->n; i++) note(t->a[i]); }
static T *sideterm(int lo) { T *t; if (nseen_ && rn(3)) { memset(imap_, 0, sizeof imap_); t = tinst(seen_[rn(nseen_)], lo, 3); if (t->k == 4 && rn(2)) t->a[1 + rn(t->n - 1)] = tnew(0, lo + rn(3)); return t; } return rterm(1 + rn(2), lo, 3); }
static int deep_;
static void gen(C *c, int lo, int eq, int big) { int i;
  c->n = big ? 257 + rn(4) : 1 + rn(3);
  for (i = 0; i < c->n; i++) { c->neg[i] = rn(3) == 0; c->t[i] = rn(eq) ? eqatom(sideterm(lo), sideterm(lo)) : ratom(big ? 1 : 1 + rn(deep_ ? 4 : 2), lo, 3); if (!big) { note(c->t[i]); } } 
  for (i = 0; !big && nseen_ > 30 && i < 20; i++) { nseen_--; seen_[rn(nseen_)] = seen_[nseen_]; } }
/* every resolution candidate and every unit that would cut a literal is found */
static char stored_[10][4];
static int sameterm(gint a, gint b) { T *x, *y; decdepth_ = 0; x = dec(a, 0); decdepth_ = 0; y = dec(b, 0); return x && y && teq(x, y); }
static void findall(gint *rs, int usekb) {
  int i, j, k, u, done = 0; glb *s; gptr r; C *c;
  memset(hit_, 0, sizeof hit_);
  wr_resolve_binary_all_active(g_, giv_->rec, giv_->rec, rs);
  for (i = 0; i < giv_->n && !(done && g_->queryfocus_strat); i++) { if (!giv_->fact && !rs[i + 1]) continue; done = 1;
    for (k = 0; k < nact_; k++) for (j = 0; j < cl_[k].n; j++) { if (!stored_[k][j] || cl_[k].neg[j] == giv_->neg[i]) continue;
      memset(sub_, 0, sizeof sub_);
      if (ounify(giv_->t[i], cl_[k].t[j])) { npairs_++; if (!hit_[k][i][j]) { printf("literal %d with literal %d of ", i, j); lpr(cl_ + k); printf("\n"); fail_c("a resolution candidate was not found", giv_, cl_ + k); } } } }
  if (!banks_clear()) fail_c("bindings left after resolution", giv_, NULL);
  tz(g_->hash_pos_units); tz(g_->hash_neg_units);
  for (k = 0; k < nact_; k++) wr_cl_store_res_units(g_, cl_[k].rec);
  for (i = 0; i < giv_->n; i++) for (u = 0; u < 2; u++) { int want = 0;
    for (k = 0; k < nact_; k++) { c = cl_ + k; if (c->n != 1 || c->neg[0] == giv_->neg[i]) continue; memset(sub_, 0, sizeof sub_); if (u ? omatch(c->t[0], giv_->t[i]) : ounify(giv_->t[i], c->t[0])) want = 1; }
    r = strongly_cut_atom(g_, giv_->at[i], rotp(g_, giv_->neg[i] ? g_->hash_pos_units : g_->hash_neg_units), u); npairs_ += want;
    wr_clear_varstack(g_, g_->varstack);
    if (want && !r) { printf("literal %d, %s\n", i, u ? "matching" : "unification"); fail_c("a stored unit clause that cuts the literal was not found", giv_, NULL); }
    if (r && !want) { printf("literal %d, %s\n", i, u ? "matching" : "unification"); fail_c("a unit clause was returned that does not cut the literal", giv_, NULL); } }
  for (i = 0; i < 12; i++) { T *t = rterm(0, 0, 0); gint a = enc(t), b = enc(t), h = wr_term_basehash(g_, a), h2 = wr_term_basehash(g_, b);
    if (h < 0 || h > NROF_CLTERM_HASHVEC_ELS) { tpr(t); FAIL(" has hash %ld outside the table", (long)h); }
    if (h != h2) { tpr(t); FAIL(": equal terms have hashes %ld and %ld", (long)h, (long)h2); } }
}
static void run(int para) {
  int i, k, usekb = rn(3) == 0, big = para && rn(60) == 0, deep = para && rn(3) == 0; gint rs[ML + 2]; cvec buf = g_->build_buffer;
  memset(cl_, 0, sizeof cl_); nseen_ = 0; deep_ = deep; nact_ = 1 + rn(5); giv_ = cl_ + 10;
  g_->kb_g = usekb ? kb_ : NULL; tabz(g_, para); if (usekb) tabz(kb_, para);
  for (i = 0; i < nact_; i++) { gen(cl_ + i, 1000, para ? 3 : rn(2), big && i == 0); if (big && i == 0) cl_[0].t[cl_[0].n - 1] = eqatom(sideterm(1000), sideterm(1000)), cl_[0].neg[cl_[0].n - 1] = 0; }
  gen(giv_, 0, para ? 3 : 2, big && rn(3) == 0);
  if (!para && rn(2)) { C *d = cl_ + rn(nact_); memset(imap_, 0, sizeof imap_); giv_->t[0] = tinst(d->t[rn(d->n)], 0, 3); if (giv_->n > 1 && rn(2)) { giv_->t[1] = tcopy(giv_->t[0], 0, 3, 1); if (giv_->t[1]->k != 4) giv_->t[1] = giv_->t[0]; giv_->neg[1] = giv_->neg[0]; } }
  for (i = 0; index_ && i < giv_->n; i++) if (rn(4)) { C *d = cl_ + rn(nact_); T *q; k = rn(d->n); memset(imap_, 0, sizeof imap_); q = tinst(d->t[k], 0, 3); if (q->k == 4) { giv_->t[i] = q; giv_->neg[i] = d->neg[k] ^ (rn(5) != 0); } }
  for (i = 0; i < nact_; i++) build(cl_ + i, i + 1);
  build(giv_, 50);
  banks_reset(); memset(sub_, 0, sizeof sub_);
  g_->prohibit_unordered_para = rn(6) == 0; g_->prohibit_deep_para = deep;  g_->queryfocus_strat = rn(4) == 0; g_->posunitpara_strat = kb_->posunitpara_strat = rn(5) == 0; g_->proof_found = 0; g_->alloc_err = 0;
  for (i = 0; i < nact_; i++) { glb *s = usekb && rn(2) ? kb_ : g_; for (k = 0; k < ML + 2; k++) rs[k] = cl_[i].n > 10 || rn(5) != 0;
    for (k = 0; index_ && k < 4; k++) stored_[i][k] = rs[k + 1] || s->queryfocus_strat;
    if (para) wr_cl_store_para_terms(s, cl_[i].rec, rs); else wr_cl_store_res_terms(s, cl_[i].rec, rs); }
  for (k = 0; k < ML + 2; k++) rs[k] = rn(5) != 0;
  if (index_) { findall(rs, usekb); g_->kb_g = NULL; g_->build_buffer = buf; return; }
  if (para) { wr_paramodulate_from_all_active(g_, giv_->rec, giv_->rec, rs); if (!banks_clear()) fail_c("bindings left after paramodulation", giv_, NULL); wr_paramodulate_into_all_active(g_, giv_->rec, giv_->rec, rs); }
  else { wr_resolve_binary_all_active(g_, giv_->rec, giv_->rec, rs); if (!banks_clear()) fail_c("bindings left after resolution", giv_, NULL); wr_factor(g_, giv_->rec, giv_->rec); wr_resolve_equality_reflexive(g_, giv_->rec, giv_->rec); }
  if (!banks_clear()) fail_c("bindings left after inference", giv_, NULL);
  g_->kb_g = NULL; g_->build_buffer = buf;
}
int main(int argc, char **argv) {
  const char *mode = argc > 3 ? argv[3] : "para";
  wit_init(argc, argv); banks_reset();
  kb_ = wr_glb_new_full(db_); if (!kb_) { printf("no kb\n"); return 3; }
  g_->store_history = 1; g_->tmp_unify_vc = ((gptr)(g_->varstack)) + 1; g_->instgen_strat = 0; kb_->instgen_strat = 0;
  tabnew_(&g_->hash_pos_groundunits); tabnew_(&g_->hash_neg_groundunits); tabnew_(&g_->hash_pos_grounddoubles); tabnew_(&g_->hash_neg_grounddoubles);
  g_->use_strong_unit_cutoff = 0; g_->use_strong_duplicates = 0; g_->propagate = 0; g_->hyperres_strat = kb_->hyperres_strat = 0; g_->use_comp_funs = 0; g_->use_comp_funs_strat = 0; g_->cl_pick_queue_strategy = 0; g_->build_rewrite = 0; g_->build_calc = 0;
  g_->print_derived_cl = g_->print_derived = g_->print_derived_precut_cl = g_->print_derived_subsumed_cl = g_->print_litterm_selection = g_->print_partial_derived_cl = g_->print_active_cl = 0;
  g_->rewrite_only_strat = g_->use_rewrite_terms_strat = g_->prohibit_nested_para = g_->prohibit_deep_para = g_->back_subsume = 0; kb_->rewrite_only_strat = kb_->use_rewrite_terms_strat = 0;
  g_->res_arglen_limit = g_->res_shortarglen_limit = 0; g_->max_run_seconds = 0; g_->max_run_dseconds = 0;
  index_ = !strcmp(mode, "index"); adv_ = 1;
  if (index_) { g_->hash_pos_units = rpto(g_, wr_vec_new_zero(g_, NROF_CLTERM_HASHVEC_ELS)); g_->hash_neg_units = rpto(g_, wr_vec_new_zero(g_, NROF_CLTERM_HASHVEC_ELS)); }
  while (!timeup()) { it++; blk_reset(); run(!strcmp(mode, "para")); }
  printf("ok %ld iterations of %s, %ld steps, %ld candidate pairs\n", it, mode, ncalls_, npairs_);
  return 0;
}
