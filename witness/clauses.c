/* replay harness for clause-level operations: subsumption, assembling derived clauses, cutting literals
   with unit clauses; oracle: literal lists over independent term trees */
#include "wit.h"
#include "Reasoner/clmeta.h"
#ifndef ML
#define ML 6
#endif
#define NCL 12
typedef struct { int n; int neg[ML]; T *t[ML]; gint at[ML]; gint *rec; int fact; gint mb[CLMETABLOCK_ELS]; } C;
static C cl_[NCL]; static long it; static glb *kb_; static int usekb_;
#define ADDTO(kb, f) ((kb) ? kb_->f : g_->f)
static T *ratom(int d, int lo, int nv) {
  T *t = tnew(4, 0); int i; t->n = 2 + rn(3); t->a[0] = tnew(1, adv_ && rn(8) == 0 ? 20 : 7 + rn(3));
  for (i = 1; i < t->n; i++) t->a[i] = rterm(d, lo, nv);
  return t;
}
static int tground(T *t) { int i; if (t->k == 0) return 0; for (i = 0; i < t->n; i++) if (!tground(t->a[i])) return 0; return 1; }
static int tflat(T *t) { int i; for (i = 1; i < t->n; i++) if (t->a[i]->k == 4 || t->a[i]->k == 0) return 0; return 1; }
static int thas(T *t, long v) { int i; if (t->k == 0) return t->id == v; for (i = 0; i < t->n; i++) if (thas(t->a[i], v)) return 1; return 0; }
static int tshare(T *t, T *u) { int i; if (t->k == 0) return thas(u, t->id); for (i = 0; i < t->n; i++) if (tshare(t->a[i], u)) return 1; return 0; }
static void lpr(C *c) { int i; if (c->n > 12) { printf("(a clause of %d literals)", c->n); return; } for (i = 0; i < c->n; i++) { if (i) printf(" | "); if (c->neg[i]) printf("-"); tpr(c->t[i]); } if (!c->n) printf("(empty)"); }
static gint *hist(long id) { gint *h = raw_rec(10); h[RECORD_HEADER_GINTS + HISTORY_CLID_POS] = wg_encode_int(db_, id); return h; }
static int natm_(C *c) { int i; for (i = 0; i < c->n; i++) if (!c->at[i]) return 0; return 1; }
/* record of the clause in the real representation */
static void build(C *c, long id) {
  int i; gint *p;
  for (i = 0; i < c->n; i++) c->at[i] = enc(c->t[i]);
  c->fact = c->n == 1 && !c->neg[0] && tground(c->t[0]) && tflat(c->t[0]) && rn(4);
  if (c->fact) { c->rec = decode_record(db_, c->at[0]); c->rec[RECORD_META_POS] = RECORD_META_FACT_CLAUSE; }
  else {
    p = c->rec = raw_rec(CLAUSE_EXTRAHEADERLEN + c->n * LIT_WIDTH); p[RECORD_META_POS] = RECORD_META_RULE_CLAUSE;
    for (i = 0; i < c->n; i++) { p[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + i * LIT_WIDTH + LIT_META_POS] = c->neg[i] ? encode_smallint(0) | ATOM_META_NEG_RAWMASK : encode_smallint(0);
      p[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + i * LIT_WIDTH + LIT_ATOM_POS] = c->at[i]; }
  }
  c->rec[RECORD_HEADER_GINTS + CLAUSE_HISTORY_POS] = encode_record(db_, hist(id));
  wr_calc_clause_meta(g_, c->rec, c->mb);
  if (!c->fact && rn(3)) {   /* sorted as the prover stores clauses; read the literals back */
    int j, used[ML] = {0}; C d = *c; wr_sort_cl(g_, c->rec);
    for (i = 0; i < c->n; i++) { gint a = c->rec[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + i * LIT_WIDTH + LIT_ATOM_POS];
      for (j = 0; j < c->n; j++) if (!used[j] && d.at[j] == a) { used[j] = 1; c->t[i] = d.t[j]; c->neg[i] = d.neg[j]; c->at[i] = a; break; } 
      if (j == c->n) FAIL("clause sorting lost a literal"); }
  }
}
static void rclause(C *c, int n, int d, int lo, int nv) { int i; c->n = n; for (i = 0; i < n; i++) { c->t[i] = ratom(d, lo, nv); c->neg[i] = rn(3) == 0; } }
static T *imap_[NV];
static T *tinst(T *t, int lo, int nv) { T *c; int i;
  if (t->k == 0) { if (!imap_[t->id]) imap_[t->id] = rn(3) ? rterm(1, lo, nv) : tnew(0, lo + rn(nv ? nv : 1)); if (imap_[t->id]->k == 0 && !nv) imap_[t->id] = tnew(1, rn(4)); return imap_[t->id]; }
  c = tnew(t->k, t->id); c->n = t->n; for (i = 0; i < t->n; i++) c->a[i] = i ? tinst(t->a[i], lo, nv) : tnew(1, t->a[0]->id); return c; }
/* an instance of c, possibly extended, shuffled and slightly damaged */
static void iclause(C *s, C *c, int lo, int nv) {
  int i, j, n; memset(imap_, 0, sizeof imap_);
  s->n = c->n; for (i = 0; i < c->n; i++) { s->t[i] = tinst(c->t[i], lo, nv); s->neg[i] = c->neg[i]; }
  if (rn(3) == 0) { i = rn(s->n); s->t[i] = tcopy(s->t[i], lo, nv, 1); if (s->t[i]->k != 4) s->t[i] = ratom(1, lo, nv); }
  if (rn(6) == 0) { i = rn(s->n); s->neg[i] ^= 1; }
  if (rn(5) == 0 && s->n > 1) s->n--;
  for (n = rn(3); n && s->n < ML; n--) { s->t[s->n] = ratom(1, lo, nv); s->neg[s->n] = rn(3) == 0; s->n++; }
  for (i = s->n - 1; i > 0; i--) { T *q; int b; j = rn(i + 1); q = s->t[i]; s->t[i] = s->t[j]; s->t[j] = q; b = s->neg[i]; s->neg[i] = s->neg[j]; s->neg[j] = b; }
}
static int osub(C *a, C *b, int i, int used) {
  int j; T *save[32];
  if (i == a->n) return 1;
  for (j = 0; j < b->n; j++) if (!(used >> j & 1) && a->neg[i] == b->neg[j]) {
    memcpy(save, sub_, 16 * sizeof *save); memcpy(save + 16, sub_ + 1000, 16 * sizeof *save);
    if (omatch(a->t[i], b->t[j]) && osub(a, b, i + 1, used | 1 << j)) return 1;
    memcpy(sub_, save, 16 * sizeof *save); memcpy(sub_ + 1000, save + 16, 16 * sizeof *save);
  }
  return 0;
}
static int subsumes(C *a, C *b) { memset(sub_, 0, sizeof sub_); return osub(a, b, 0, 0); }
static void fail_c(const char *m, C *a, C *b) { printf("clauses: "); lpr(a); if (b) { printf("   and   "); lpr(b); } printf("\n"); FAIL("%s", m); }
/* ground unit tables */
static gint *tabs_[600]; static int ntabs_;
static gint bucketof(gint *tab, gint atom) { gint h = (int)wr_lit_hash(g_, atom); if (h < 0) h = -h; if (h + 1 >= tab[0]) h = h % (tab[0] - 1); return h + 1; }
static void tabpush(gint tabo, gint atom, gptr cl) { gint *tab = rotp(g_, tabo); if (ntabs_ < 600) tabs_[ntabs_++] = tab + bucketof(tab, atom); wr_push_termhash(g_, tab, wr_lit_hash(g_, atom), rotp(g_, atom), cl); }
static void tabsclear(void) { int i; for (i = 0; i < ntabs_; i++) if (*tabs_[i]) ((gint *)rotp(g_, *tabs_[i]))[1] = 2; ntabs_ = 0; }

static void m_subsume(void) {
  C *a = cl_, *b = cl_ + 1; int r, nv = rn(4) ? 1 + rn(4) : 0;
  rclause(a, 1 + rn(4), rn(3), 0, nv);
  if (rn(4)) iclause(b, a, 1000, rn(2) ? 3 : 0); else rclause(b, 1 + rn(4), rn(3), 1000, 3);
  build(a, 1); build(b, 2);
  r = wr_subsume_cl(g_, a->rec, b->rec, 1);
  if (r && !subsumes(a, b)) fail_c("reported that the first clause subsumes the second", a, b);
  if (!banks_clear()) fail_c("bindings left after subsumption", a, b);
  /* equal clauses subsume each other literal by literal: the plain unit cases are complete */
  if (!r && a->fact && b->fact && teq(a->t[0], b->t[0])) fail_c("equal facts not recognised", a, b);
}
static void m_lists(void) {
  int n = 1 + rn(5), i, k, u = rn(4), r, f, inkb[8]; cvec av = rotp(g_, g_->clactivesubsume), kv = rotp(g_, kb_->clactivesubsume); C *c = cl_ + 10, *us = cl_ + 6; gint *q;
  rclause(c, 1 + rn(3), rn(2), 1000, rn(2) ? 3 : 0);
  if (rn(2)) { C *x = cl_ + 11; rclause(x, 1 + rn(3), rn(2), 0, 3); iclause(c, x, 1000, rn(2) ? 3 : 0); }
  for (i = 0; i < n; i++) { if (rn(2)) rclause(cl_ + i, 1 + rn(3), rn(2), 0, 3); else { C *x = cl_ + i; int j; *x = *c; for (j = 0; j < x->n; j++) { memset(imap_, 0, sizeof imap_); x->t[j] = tinst(tcopy(c->t[j], 1000, 3, rn(3) == 0), 0, 3); if (x->t[j]->k != 4) x->t[j] = ratom(1, 0, 3); } if (rn(2) && x->n > 1) x->n--; } build(cl_ + i, i + 1); }
  for (i = 0; i < u; i++) { us[i].n = 1; us[i].neg[0] = rn(2); us[i].t[0] = rn(2) ? tcopy(c->t[rn(c->n)], 1000, 0, 1) : ratom(1, 0, 0); if (us[i].t[0]->k != 4 || !tground(us[i].t[0])) us[i].t[0] = ratom(1, 0, 0); build(us + i, 20 + i); }
  build(c, 50);
  /* literals as the prover has them: the harness reads back the order */
  av[1] = 2; usekb_ = rn(2); g_->kb_g = usekb_ ? kb_ : NULL; kv[1] = 2;
  for (i = 0; i < n; i++) { inkb[i] = usekb_ && rn(2); if (inkb[i]) { for (k = 0; k < CLMETABLOCK_ELS; k++) kv[kv[1] + k] = cl_[i].mb[k]; kv[kv[1] + CLMETABLOCK_CL_POS] = rpto(g_, cl_[i].rec); kv[1] += CLMETABLOCK_ELS; continue; } for (k = 0; k < CLMETABLOCK_ELS; k++) av[av[1] + k] = cl_[i].mb[k]; av[av[1] + CLMETABLOCK_CL_POS] = rpto(g_, cl_[i].rec); av[1] += CLMETABLOCK_ELS; }
  for (i = 0; i < u; i++) { int q = usekb_ && rn(2); tabpush(us[i].neg[0] ? ADDTO(q, hash_neg_active_groundunits) : ADDTO(q, hash_pos_active_groundunits), us[i].at[0], us[i].rec); }
  r = wr_given_cl_subsumed(g_, c->rec, rn(4) ? c->mb : NULL);
  if (r) {
    for (f = 0, i = 0; i < n; i++) f |= subsumes(cl_ + i, c);
    for (i = 0; i < u; i++) f |= subsumes(us + i, c);
    if (!f) fail_c("reported subsumed, but no active clause or unit subsumes it", c, NULL);
  }
  memset(g_->backsubsume_values, 0, 64);
  wr_given_cl_backsubsume(g_, c->rec, rn(4) ? c->mb : NULL);
  for (i = 0; i < n; i++) if (wr_get_cl_backsubsumed(g_, cl_[i].rec) && (inkb[i] || !subsumes(c, cl_ + i))) fail_c("first clause marked as subsumed by the second", cl_ + i, c);
  for (i = 0; i < 64; i++) if ((i < 1 || i > n) && ((char *)g_->backsubsume_values)[i]) FAIL("clause id %d marked as back-subsumed but it is not in the active list", i);
  tabsclear(); av[1] = 2; kv[1] = 2; g_->kb_g = NULL;
  if (!banks_clear()) fail_c("bindings left after list subsumption", c, NULL);
}
static gint rptr_[64];
static void m_cut(void) {
  C *c = cl_ + 10, *us = cl_; int u = 1 + rn(5), i, j, r, n0 = 0, f; usekb_ = rn(2); g_->kb_g = usekb_ ? kb_ : NULL;
  rclause(c, 1 + rn(4), rn(2), 0, rn(2) ? 2 : 0);
  build(c, 50);
  for (i = 0; i < u; i++) { us[i].n = 1; us[i].neg[0] = rn(2); us[i].t[0] = rn(3) ? tcopy(c->t[rn(c->n)], 0, 0, 1) : ratom(1, 0, 0); if (us[i].t[0]->k != 4 || !tground(us[i].t[0])) us[i].t[0] = ratom(1, 0, 0); if (rn(3) == 0) { us[i].neg[0] = !c->neg[0]; us[i].t[0] = tground(c->t[0]) ? c->t[0] : us[i].t[0]; } build(us + i, 20 + i);
    { int q = usekb_ && rn(2); tabpush(us[i].neg[0] ? ADDTO(q, hash_neg_groundunits) : ADDTO(q, hash_pos_groundunits), us[i].at[0], us[i].rec); } }
  for (i = 0; i < c->n; i++) { rptr_[i * LIT_WIDTH + LIT_META_POS] = c->neg[i] ? encode_smallint(1) | ATOM_META_NEG_RAWMASK : encode_smallint(1); rptr_[i * LIT_WIDTH + LIT_ATOM_POS] = c->at[i]; }
  { r = wr_derived_cl_cut_and_subsume(g_, rptr_, c->n, NULL); }
  for (i = 0; i < c->n; i++) {
    int pos = 0, neg = 0; for (j = 0; j < u; j++) if (teq(us[j].t[0], c->t[i])) { if (us[j].neg[0] == c->neg[i]) pos = 1; else neg = 1; }
    if (rptr_[i * LIT_WIDTH + LIT_ATOM_POS] != c->at[i]) fail_c("cutting changed an atom", c, NULL);
    if (rptr_[i * LIT_WIDTH + LIT_META_POS] == 0) { n0++; if (!neg) fail_c("literal cut without a complementary unit", c, NULL); }
    else if (rptr_[i * LIT_WIDTH + LIT_META_POS] != (c->neg[i] ? encode_smallint(1) | ATOM_META_NEG_RAWMASK : encode_smallint(1))) fail_c("cutting changed a literal sign", c, NULL);
  }
  if (r < 0) { for (f = 0, i = 0; i < c->n; i++) for (j = 0; j < u; j++) if (us[j].neg[0] == c->neg[i] && teq(us[j].t[0], c->t[i])) f = 1; if (!f) fail_c("derived clause dropped as subsumed without a subsuming unit", c, NULL); }
  else if (r != n0) fail_c("number of cut literals reported wrongly", c, NULL);
  tabsclear(); g_->kb_g = NULL;
}
static void m_strong(void) {
  C *c = cl_ + 10, *us = cl_; int u = 1 + rn(5), i, j, r, n0 = 0, pre = 0, ms[ML]; 
  rclause(c, 1 + rn(4), rn(2), 0, rn(4) ? 3 : 0);
  build(c, 50);
  for (i = 0; i < u; i++) { us[i].n = 1; us[i].neg[0] = rn(2); memset(imap_, 0, sizeof imap_); us[i].t[0] = rn(3) ? tinst(c->t[rn(c->n)], 1000, 3) : ratom(1, 1000, 3); if (rn(3) == 0) us[i].t[0] = tcopy(us[i].t[0], 1000, 3, 1); if (us[i].t[0]->k != 4) us[i].t[0] = ratom(1, 1000, 3); build(us + i, 20 + i);
    wr_cl_store_res_units(g_, us[i].rec); }
  for (i = 0; i < c->n; i++) { rptr_[i * LIT_WIDTH + LIT_META_POS] = c->neg[i] ? encode_smallint(1) | ATOM_META_NEG_RAWMASK : encode_smallint(1); rptr_[i * LIT_WIDTH + LIT_ATOM_POS] = c->at[i]; if (rn(5) == 0) { rptr_[i * LIT_WIDTH + LIT_META_POS] = 0; pre++; } ms[i] = rptr_[i * LIT_WIDTH + LIT_META_POS] == 0; }
  g_->tmp_unify_vc = ((gptr)(g_->varstack)) + 1;
  r = wr_derived_cl_strong_cut(g_, rptr_, c->n, pre);
  for (i = 0; i < c->n; i++) if (!ms[i]) {
    if (rptr_[i * LIT_WIDTH + LIT_ATOM_POS] != c->at[i]) fail_c("cutting changed an atom", c, NULL);
    if (rptr_[i * LIT_WIDTH + LIT_META_POS] == 0) {
      int ok = 0, sh = 0; n0++;
      for (j = 0; j < c->n; j++) if (j != i && !ms[j] && tshare(c->t[i], c->t[j])) sh = 1;
      for (j = 0; j < u; j++) if (us[j].neg[0] != c->neg[i]) { memset(sub_, 0, sizeof sub_); if (omatch(us[j].t[0], c->t[i])) ok = 1; memset(sub_, 0, sizeof sub_); if (!sh && ounify(us[j].t[0], c->t[i])) ok = 1; }
      if (!ok) { for (j = 0; j < u; j++) { printf("unit "); lpr(us + j); printf("\n"); } printf("literal "); tpr(c->t[i]); printf(" pre %d sh %d\n", pre, sh); fail_c("literal cut although no complementary unit resolves it away", c, NULL); }
    }
  } else if (rptr_[i * LIT_WIDTH + LIT_META_POS] != 0) fail_c("cut mark lost", c, NULL);
  if (r != n0) fail_c("number of cut literals reported wrongly", c, NULL);
  for (j = 0; j < u; j++) { gint ph[ATOM_PREFHASH_MAXLEN + 1]; int k, pl = wr_atom_calc_prefhashes(g_, us[j].at[0], ph); vec hv = rotp(g_, us[j].neg[0] ? g_->hash_neg_units : g_->hash_pos_units); for (k = 0; k < pl; k++) hv[WR_HASH_NORM(WR_HASH_ADD(pl - 1, ph[k]), NROF_CLTERM_HASHVEC_ELS)] = 0; }
  if (!banks_clear()) fail_c("bindings left after cutting", c, NULL);
}
static void m_copy(void) {
  C *c = cl_, *d = cl_ + 1, o; int i, j, r, rpos = 0, cp = -1, cut, n, drop = 0, v, zn; gint *w; cvec buf = g_->build_buffer;
  rclause(c, 1 + rn(4), rn(2), 0, 3); build(c, 1);
  if (c->fact == 0 && c->n == 1 && rn(3) == 0) ;
  rclause(d, 1 + rn(3), rn(2), 0, 3); if (rn(2)) { d->t[0] = c->t[rn(c->n)]; d->neg[0] = rn(2); } build(d, 2);
  banks_reset(); memset(sub_, 0, sizeof sub_);
  for (v = 0; v < 3; v++) if (rn(3) == 0) { T *b = rterm(1, 1000 + v, 2); sub_[v] = b; }
  for (v = 0; v < 3; v++) if (sub_[v]) { gint e = enc(sub_[v]); (g_->varbanks)[v] = e; ((vec)g_->varstack)[((vec)g_->varstack)[1]++] = (gint)((gptr)g_->varbanks + v); }
  g_->build_subst = 1; g_->build_rename = 0; g_->use_comp_funs = 0; g_->build_rewrite = 0; g_->build_calc = 0;
  g_->build_buffer = (void *)g_->derived_termbuf; ((cvec)g_->derived_termbuf)[1] = 2;
  o.n = 0;
  for (n = 0; n < 2 && !drop; n++) {
    C *s = n ? d : c; cut = rn(s->n + 1);
    for (i = 0; i < s->n && !drop; i++) if (i != cut && !(i < s->n && cut < s->n && s->at[i] == s->at[cut])) {
      T *q = oapply(s->t[i]); int dup = 0;
      for (j = 0; j < o.n; j++) if (teq(o.t[j], q)) { if (o.neg[j] == s->neg[i]) dup = 1; else drop = 1; break; }
      if (!dup && !drop) { o.t[o.n] = q; o.neg[o.n] = s->neg[i]; o.n++; if (o.n > ML - 1) goto out; }
    }
    r = wr_process_resolve_result_aux(g_, s->rec, cut < s->n ? s->at[cut] : 0, s->n, rptr_, &rpos, &cp, -1, 0);
    if (!r != !!drop) fail_c(r ? "tautological clause kept" : "clause dropped without a reason", c, d);
    if (r && cut < s->n && cp != cut && s->at[cp] != s->at[cut]) fail_c("position of the cut literal reported wrongly", s, NULL);
  }
  if (drop) goto out;
  if (rpos != o.n) fail_c("number of derived literals is wrong", c, d);
  for (i = 0; i < rpos; i++) { T *q; decdepth_ = 0; q = dec(rptr_[i * LIT_WIDTH + LIT_ATOM_POS], 0);
    if (!q || !teq(q, o.t[i])) { printf("expected "); tpr(o.t[i]); printf(" got "); if (q) tpr(q); printf("\n"); fail_c("derived literal is not the instance", c, d); }
    if (!!wg_atom_meta_is_neg(db_, rptr_[i * LIT_WIDTH + LIT_META_POS]) != o.neg[i]) fail_c("derived literal has the wrong sign", c, d); }
  /* remove some literals and build the clause */
  for (zn = 0, i = 0; i < o.n; i++) if (rn(4) == 0) { rptr_[i * LIT_WIDTH + LIT_META_POS] = 0; o.t[i] = NULL; zn++; }
  if (zn || rn(2)) wr_process_resolve_result_remove_cuts(g_, rptr_, &rpos, zn);
  for (j = 0, i = 0; i < o.n; i++) if (o.t[i]) { o.t[j] = o.t[i]; o.neg[j] = o.neg[i]; j++; }
  o.n = j;
  if (rpos != o.n) fail_c("number of literals after removing cut ones is wrong", c, d);
  if (!rpos) goto out;
  r = wr_process_resolve_result_isrulecl(g_, rptr_, rpos);
  if (!r && !(o.n == 1 && !o.neg[0] && tflat(o.t[0]))) fail_c("clause with variables, structure or a negative literal stored as a fact", c, d);
  g_->build_subst = 0;
  w = wr_derived_build_cl_from_initial_cl(g_, rptr_, rpos, r, 0);
  if (!w) FAIL("clause could not be built");
  if (!!wg_rec_is_rule_clause(db_, w) != !!r) fail_c("built clause has the wrong kind", c, d);
  if (r && wg_count_clause_atoms(db_, w) != o.n) fail_c("built clause has the wrong length", c, d);
  for (i = 0; i < o.n; i++) { T *q; decdepth_ = 0; q = dec(r ? wg_get_rule_clause_atom(db_, w, i) : encode_record(db_, w), 0);
    if (!q || !teq(q, o.t[i])) fail_c("literal of the built clause is wrong", c, d);
    if (r && !!wg_atom_meta_is_neg(db_, wg_get_rule_clause_atom_meta(db_, w, i)) != o.neg[i]) fail_c("sign in the built clause is wrong", c, d); }
out:
  g_->build_buffer = buf; banks_reset();
}
/* equality of two literals up to a one-to-one renaming of variables */
static long ren_[NV], inv_[NV];
static int teqr(T *a, T *b) { int i;
  if (a->k == 0) { if (b->k) return 0; if (ren_[a->id] < 0 && inv_[b->id] < 0) { ren_[a->id] = b->id; inv_[b->id] = a->id; } return ren_[a->id] == b->id; }
  if (a->k != 4 || b->k != 4) return teq(a, b);
  if (a->n != b->n) return 0;
  for (i = 0; i < a->n; i++) if (!teqr(a->a[i], b->a[i])) return 0;
  return 1; }
static gint tabnew_(gint *f) { return *f = rpto(g_, wr_vec_new_zero(g_, 300)); }
static void tabzero_(gint f) { gint *t = rotp(g_, f); int i; for (i = 1; i < t[0]; i++) t[i] = 0; }
static long queued_(gint **cl) { gint *q = rotp(g_, g_->clpick_queues), *v; int k; long n = 0;
  static const int ps[4] = {GOAL_QUEUE_POS, GOAL_ASSUMPTIONS_QUEUE_POS, ASSUMPTIONS_QUEUE_POS, AXIOMS_QUEUE_POS};
  for (k = 0; k < 4; k++) { v = rotp(g_, q[ps[k] + CLPICK_QUEUE_POS]); n += v[1] - 2; if (v[1] > 2) *cl = (gint *)v[v[1] - 1]; v[1] = 2; }
  return n; }
static int isans_(T *t) { return t->a[0]->k == 1 && !strcmp(cname_[t->a[0]->id], "$ans"); }
static int ansid_ = -1;
static int omask_;    /* literals that some unit refutes */
/* the n literals of w from i on are the literals of o from j on, without refuted ones */
static T *wl_[ML]; static int wn_[ML];
static int submatch(C *o, int j, int i, int n) {
  long s1[NV], s2[NV];
  if (j == o->n) return i == n;
  if (i < n && wn_[i] == o->neg[j]) { memcpy(s1, ren_, sizeof s1); memcpy(s2, inv_, sizeof s2); if (teqr(o->t[j], wl_[i]) && submatch(o, j + 1, i + 1, n)) return 1; memcpy(ren_, s1, sizeof s1); memcpy(inv_, s2, sizeof s2); }
  return (omask_ >> j & 1) && submatch(o, j + 1, i, n);
}
static void m_infer(void) {
  static int init = 0; C *c = cl_, *d = cl_ + 1, o; int i, j, k, x = -1, y = -1, n, drop = 0, all, nu = 0, mode = rn(8), one, strong = rn(2), big = rn(8) == 0; C *us = cl_ + 2; gint *w = NULL; long q;
  cvec buf = g_->build_buffer;
  if (!init) { init = 1; tabnew_(&g_->hash_pos_groundunits); tabnew_(&g_->hash_neg_groundunits); tabnew_(&g_->hash_pos_grounddoubles); tabnew_(&g_->hash_neg_grounddoubles);
    for (i = 0; i < NCON; i++) if (!strcmp(cname_[i], "$ans")) ansid_ = i; }
  tabzero_(g_->hash_pos_groundunits); tabzero_(g_->hash_neg_groundunits); tabzero_(g_->hash_pos_grounddoubles); tabzero_(g_->hash_neg_grounddoubles);
  one = mode < 3;       /* factoring works on one clause */
  rclause(c, 1 + rn(3), rn(2), 0, 3); rclause(d, 1 + rn(3), rn(2), 1000, 3);
  if (big) { int v = 0; c->n = 4; for (i = 0; i < 4; i++) { T *t = c->t[i] = tnew(4, 0); t->n = 8; t->a[0] = tnew(1, 7 + rn(3)); for (k = 1; k < 8; k++) t->a[k] = tnew(0, v++); c->neg[i] = i == 1; } }
  if (one) { if (!big) rclause(c, 2 + rn(3), rn(2), 0, 3); i = rn(c->n); j = rn(c->n); if (!big && i != j) { c->t[j] = tcopy(c->t[i], 0, 3, 1); if (c->t[j]->k != 4) c->t[j] = c->t[i]; c->neg[j] = c->neg[i]; } }
  else { i = rn(c->n); j = rn(d->n); memset(imap_, 0, sizeof imap_); d->t[j] = tinst(c->t[i], 1000, 3); d->neg[j] = !c->neg[i];
    if (rn(3) == 0 && c->n > 1) { k = rn(d->n); memset(imap_, 0, sizeof imap_); if (k != j) { d->t[k] = tinst(c->t[(i + 1) % c->n], 1000, 3); d->neg[k] = rn(4) ? c->neg[(i + 1) % c->n] : !c->neg[(i + 1) % c->n]; } } }
  if (rn(3) == 0) for (k = 0; k < 2; k++) { C *s = k ? d : c; for (i = 0; i < s->n; i++) if (rn(3)) { s->t[i]->a[0] = tnew(1, ansid_ + (rn(4) ? 0 : rn(3))); s->neg[i] = 0; } }
  build(c, 1); if (!one) build(d, 2);
  if (one) { for (i = 0; i < c->n && x < 0; i++) for (j = i + 1; j < c->n; j++) if (c->neg[i] == c->neg[j]) { memset(sub_, 0, sizeof sub_); if (ounify(c->t[i], c->t[j])) { x = i; y = j; break; } } }
  else for (i = 0; i < c->n && x < 0; i++) for (j = 0; j < d->n; j++) if (c->neg[i] != d->neg[j]) { memset(sub_, 0, sizeof sub_); if (ounify(c->t[i], d->t[j])) { x = i; y = j; break; } }
  if (x < 0) return;
  /* a literal occurring twice: only its first occurrence is cut */
  for (i = 0; i < c->n; i++) if (i != x && c->at[i] == c->at[x]) return;
  if (!one) for (i = 0; i < d->n; i++) if (i != y && d->at[i] == d->at[y]) return;
  banks_reset();
  if (!wr_unify_term(g_, c->at[x], one ? c->at[y] : d->at[y], 1)) { banks_reset(); return; }
  o.n = 0;
  for (n = 0; n < (one ? 1 : 2) && !drop; n++) { C *s = n ? d : c;
    for (i = 0; i < s->n && !drop; i++) if (i != (n ? y : x)) {
      T *r = oapply(s->t[i]); int dup = 0;
      for (j = 0; j < o.n; j++) if (teq(o.t[j], r)) { if (o.neg[j] == s->neg[i]) dup = 1; else drop = 1; break; }
      if (!dup && !drop) { o.t[o.n] = r; o.neg[o.n] = s->neg[i]; o.n++; } } }
  /* some units that refute or subsume literals of the result */
  for (i = 0; !drop && i < o.n; i++) if (rn(3)) { C *u = us + nu; int g = tground(o.t[i]); if (!g && (!strong || rn(2))) continue;
    nu++; u->n = 1; u->neg[0] = rn(4) ? !o.neg[i] : o.neg[i]; u->t[0] = o.t[i];
    if (strong && rn(2)) { memset(imap_, 0, sizeof imap_); u->t[0] = tinst(o.t[i], 2000, 0); for (k = 1; k < u->t[0]->n; k++) if (rn(2)) u->t[0]->a[k] = tnew(0, 2000 + k); }
    g = tground(u->t[0]); if (!g && !strong) { nu--; continue; }
    if (!g) { int v = 0; for (k = 1; k < u->t[0]->n; k++) if (!tground(u->t[0]->a[k])) v = 1; if (u->t[0] == o.t[i]) { nu--; continue; } }
    build(u, 20 + nu);
    if (g && rn(3)) wr_push_termhash(g_, rotp(g_, u->neg[0] ? g_->hash_neg_groundunits : g_->hash_pos_groundunits), wr_lit_hash(g_, u->at[0]), rotp(g_, u->at[0]), u->rec);
    else if (strong) wr_cl_store_res_units(g_, u->rec); }
  for (omask_ = 0, i = 0; i < o.n; i++) for (j = 0; j < nu; j++) if (us[j].neg[0] != o.neg[i]) { memset(sub_, 0, sizeof sub_); if (ounify(us[j].t[0], o.t[i])) omask_ |= 1 << i; }
  g_->proof_found = 0; g_->use_strong_unit_cutoff = strong; g_->use_strong_duplicates = 0; g_->propagate = 0; g_->hyperres_strat = 0; g_->use_comp_funs = 0; g_->use_comp_funs_strat = 0; g_->cl_pick_queue_strategy = 0; g_->build_rewrite = 0; g_->build_calc = 0;
  g_->print_derived_cl = g_->print_derived = g_->print_derived_precut_cl = g_->print_derived_subsumed_cl = g_->print_litterm_selection = g_->print_partial_derived_cl = 0;
  ((cvec)g_->queue_termbuf)[1] = 2; ((cvec)g_->hyper_termbuf)[1] = 2; if (g_->answers) (g_->answers)[1] = 2; if (g_->cut_clvec) (g_->cut_clvec)[1] = 0;
  queued_(&w); w = NULL; g_->alloc_err = 0;
  if (one) wr_process_factor_result(g_, c->rec, c->n, x, c->at[x], y, c->at[y], c->rec);
  else wr_process_resolve_result(g_, c->at[x], c->rec, d->at[y], d->rec, c->rec);
  q = queued_(&w);
  for (k = 3 * NROF_VARSINBANK; k < 4 * NROF_VARSINBANK; k++) if ((g_->varbanks)[k] != UNASSIGNED) fail_c("a renaming variable stays assigned", c, one ? NULL : d);
  for (all = 1, i = 0; i < o.n; i++) if (!(omask_ >> i & 1) && !isans_(o.t[i])) all = 0;
  if (g_->proof_found && (drop || !all)) fail_c("contradiction reported although a literal is left", c, one ? NULL : d);
  if (q && drop) fail_c("tautology kept", c, one ? NULL : d);
  if (!g_->proof_found && !drop && !g_->alloc_err) {
    int subs = 0; for (i = 0; i < o.n; i++) for (j = 0; j < nu; j++) if (us[j].neg[0] == o.neg[i] && teq(us[j].t[0], o.t[i])) subs = 1;
    if (!q && !subs) fail_c("derived clause lost without a reason", c, one ? NULL : d);
  }
  if (q && !g_->proof_found && !drop) {
    int rule = wg_rec_is_rule_clause(db_, w), len = rule ? wg_count_clause_atoms(db_, w) : 1;
    if (len > o.n || len < 1) fail_c("the kept clause does not consist of the remaining literals", c, one ? NULL : d);
    for (i = 0; i < len; i++) { decdepth_ = 0; wl_[i] = dec(rule ? wg_get_rule_clause_atom(db_, w, i) : encode_record(db_, w), 0); if (!wl_[i]) fail_c("ill-formed literal in the kept clause", c, one ? NULL : d);
      wn_[i] = rule && wg_atom_meta_is_neg(db_, wg_get_rule_clause_atom_meta(db_, w, i)); }
    memset(ren_, -1, sizeof ren_); memset(inv_, -1, sizeof inv_);
    if (!submatch(&o, 0, 0, len)) { printf("expected "); lpr(&o); printf("  (refutable literals: mask %x)  got ", omask_); for (i = 0; i < len; i++) { printf(i ? " | %s" : "%s", wn_[i] ? "-" : ""); tpr(wl_[i]); } printf("\n"); fail_c("the kept clause does not consist of the remaining literals", c, one ? NULL : d); }
  }
  if (strong) { C *ws = us; C tmp_; for (j = 0; j <= nu; j++) { gint ph[ATOM_PREFHASH_MAXLEN + 1], at; int pl, ng; vec hv;
    if (j < nu) { at = ws[j].at[0]; ng = ws[j].neg[0]; } else { if (!q) break; if (wg_rec_is_rule_clause(db_, w)) { if (wg_count_clause_atoms(db_, w) != 1) break; at = wg_get_rule_clause_atom(db_, w, 0); ng = !!wg_atom_meta_is_neg(db_, wg_get_rule_clause_atom_meta(db_, w, 0)); } else { at = encode_record(db_, w); ng = 0; } }
    pl = wr_atom_calc_prefhashes(g_, at, ph); hv = rotp(g_, ng ? g_->hash_neg_units : g_->hash_pos_units); for (k = 0; k < pl; k++) hv[WR_HASH_NORM(WR_HASH_ADD(pl - 1, ph[k]), NROF_CLTERM_HASHVEC_ELS)] = 0; } }
  banks_reset(); g_->build_buffer = buf;
}
#ifndef NOMAIN
int main(int argc, char **argv) {
  const char *mode = argc > 3 ? argv[3] : "subsume";
  wit_init(argc, argv); banks_reset();
  kb_ = wr_glb_new_full(db_); if (!kb_) { printf("no kb\n"); return 3; }
  g_->store_history = 1; g_->tmp_unify_vc = ((gptr)(g_->varstack)) + 1; g_->instgen_strat = 0;
  if (!g_->hash_pos_units || g_->hash_pos_units == g_->hash_neg_units) { g_->hash_pos_units = rpto(g_, wr_vec_new_zero(g_, NROF_CLTERM_HASHVEC_ELS)); g_->hash_neg_units = rpto(g_, wr_vec_new_zero(g_, NROF_CLTERM_HASHVEC_ELS)); }
  while (!timeup()) {
    it++; blk_reset();
    if (!strcmp(mode, "subsume")) m_subsume();
    else if (!strcmp(mode, "lists")) m_lists();
    else if (!strcmp(mode, "cut")) m_cut();
    else if (!strcmp(mode, "strong")) m_strong();
    else if (!strcmp(mode, "infer")) m_infer();
    else m_copy();
  }
  printf("ok %ld iterations of %s\n", it, mode);
  return 0;
}
#endif
