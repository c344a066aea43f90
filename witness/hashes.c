/* replay harness for the hash tables, hash lists and vectors: everything stored is found again, nothing else is */
#define NOMAIN
#include "clauses.c"
#define NP 60
static T *pt_[NP]; static gptr pc_[NP]; static int np_;
static T *rg(void) { T *t = tnew(4, 0); int i; t->n = 2 + rn(3); t->a[0] = tnew(1, 7 + rn(3)); for (i = 1; i < t->n; i++) t->a[i] = rterm(rn(6) ? rn(2) : 3, 0, 0); return t; }
static gint hashof_(T *t) { gint h = 0, e = enc(t); int i; h = wr_lit_hash(g_, e);
  if (h < 0 || h > NROF_CLTERM_HASHVEC_ELS - 2) { printf("hash %ld of ", h); tpr(t); FAIL(" is outside the tables"); }
  for (i = 0; i < 2; i++) { gint k = wr_lit_hash(g_, enc(t)); if (k != h) { printf("hashes %ld and %ld of two copies of ", h, k); tpr(t); FAIL(" differ"); } }
  return h; }
static void findcheck(gint *tab, T *t, gint hash, const char *what) {
  gint e = enc(t); gptr r = wr_find_termhash(g_, tab, decode_record(db_, e), hash); int i, any = 0, ok = 0;
  for (i = 0; i < np_; i++) if (teq(pt_[i], t)) { any = 1; if (pc_[i] == r) ok = 1; }
  if (any && !r) { tpr(t); FAIL(" was stored but is not found (%s)", what); }
  if (r && !ok) { tpr(t); FAIL(" is found although no equal term was stored with that clause (%s)", what); }
  if (any) { gint b = wr_find_offset_termbucket(g_, tab, decode_record(db_, e), hash), *bp; int j, f = 0;
    if (!b) { tpr(t); FAIL(" has no bucket although it was stored (%s)", what); }
    bp = rotp(g_, b); for (i = 0; i < np_; i++) if (teq(pt_[i], t)) { for (f = 0, j = 2; j < bp[1]; j += 2) if (rotp(g_, bp[j + 1]) == pc_[i]) f = 1; if (!f) { tpr(t); FAIL(": an entry of its bucket is lost (%s)", what); } } }
}
static void m_table(void) {
  gint *tab = wr_vec_new_zero(g_, 3 + rn(rn(2) ? 5 : 40)); int i, k; 
  np_ = 0;
  for (i = 0; i < NP - 1 && blkp_ < blkn_ - 4000; i++) {
    T *t = np_ && rn(3) == 0 ? tcopy(pt_[rn(np_)], 0, 0, rn(3) == 0) : rg(); gint h;
    if (t->k != 4) continue;
    h = hashof_(t); if (rn(40) == 0) h = -h;
    if (rn(3)) { gptr c = (gptr)raw_rec(2); gint e = enc(t); if (!wr_push_termhash(g_, tab, (int)h, decode_record(db_, e), c)) FAIL("wr_push_termhash failed"); pt_[np_] = t; pc_[np_++] = c; }
    for (k = 0; k < 3; k++) { T *q = k && np_ ? pt_[rn(np_)] : t; findcheck(tab, q, hashof_(q), "wr_push_termhash"); }
  }
  for (i = 0; i < np_; i++) findcheck(tab, pt_[i], hashof_(pt_[i]), "wr_push_termhash");
  wr_free_termhash(g_, tab);
}
/* unit and double clauses filed by the functions the prover calls */
static int psg_[NP];
static void m_store(void) {
  static gint *tabs[6]; int i, k, kind = rn(3); gint *own[6];
  for (i = 0; i < 6; i++) { own[i] = rotp(g_, i == 0 ? g_->hash_pos_groundunits : i == 1 ? g_->hash_neg_groundunits : i == 2 ? g_->hash_pos_grounddoubles : i == 3 ? g_->hash_neg_grounddoubles : i == 4 ? g_->hash_pos_active_groundunits : g_->hash_neg_active_groundunits); tabs[i] = own[i]; }
  np_ = 0;
  for (i = 0; i < 12; i++) {
    T *t[2]; int neg[2], n = kind == 1 ? 2 : 1, fact; gint *p, at[2], h = -2, meta;
    for (k = 0; k < n; k++) { t[k] = rg(); neg[k] = rn(2); at[k] = enc(t[k]); }
    fact = n == 1 && !neg[0] && tflat(t[0]) && rn(2);
    if (fact) { p = decode_record(db_, at[0]); p[RECORD_META_POS] = RECORD_META_FACT_CLAUSE; }
    else { p = raw_rec(CLAUSE_EXTRAHEADERLEN + n * LIT_WIDTH); p[RECORD_META_POS] = RECORD_META_RULE_CLAUSE;
      for (k = 0; k < n; k++) { p[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + k * LIT_WIDTH + LIT_META_POS] = encode_smallint((ATOM_META_GROUND_MASK << ATOM_META_GROUND_SHIFT)) | (neg[k] ? ATOM_META_NEG_RAWMASK : 0); p[RECORD_HEADER_GINTS + CLAUSE_EXTRAHEADERLEN + k * LIT_WIDTH + LIT_ATOM_POS] = at[k]; } }
    meta = encode_smallint(0) | (neg[0] ? ATOM_META_NEG_RAWMASK : 0);
    if (kind == 0) { h = wr_add_cl_to_unithash(g_, p, meta); if (h != wr_lit_hash(g_, at[0])) FAIL("hash of the filed unit is not returned"); }
    else if (kind == 1) wr_add_cl_to_doublehash(g_, p);
    else wr_add_cl_to_active_unithash(g_, p);
    for (k = 0; k < n; k++) { pt_[np_] = t[k]; psg_[np_] = neg[k]; pc_[np_++] = p; }
  }
  for (k = 0; k < 2; k++) {     /* entries of the other sign must not be there */
    T *s[NP]; gptr c[NP]; int j, m = np_; memcpy(s, pt_, sizeof s); memcpy(c, pc_, sizeof c);
    for (j = i = 0; i < m; i++) if (psg_[i] == k) { pt_[j] = s[i]; pc_[j++] = c[i]; }
    np_ = j;
    for (i = 0; i < m; i++) findcheck(tabs[kind * 2 + k], s[i], wr_lit_hash(g_, enc(s[i])), kind == 0 ? "wr_add_cl_to_unithash" : kind == 1 ? "wr_add_cl_to_doublehash" : "wr_add_cl_to_active_unithash");
    memcpy(pt_, s, sizeof s); memcpy(pc_, c, sizeof c); np_ = m;
  }
  for (i = 0; i < 6; i++) { gint *t = own[i]; for (k = 0; k < np_; k++) { gint b = bucketof(t, enc(pt_[k])); if (t[b]) ((gint *)rotp(g_, t[b]))[1] = 2; } }
}
static void m_lists_(void) {
  vec v = wr_vec_new_zero(g_, 6); gint st[7][40][3]; int n[7] = {0}, i, k;
  for (i = 0; i < 80; i++) {
    int h = rn(8); gint e = consts_[rn(NCON)], *c = raw_rec(1), path = rn(1 << 20); int r = 1;
    if (h >= 1 && h < 6) r = wr_clterm_add_hashlist_withpath(g_, v, h, e, c, path);
    if (h >= 1 && h < 6 && r) FAIL("adding to list %d failed", h);
    if (!r && n[h] < 40) { st[h][n[h]][0] = e; st[h][n[h]][1] = rpto(g_, c); st[h][n[h]++][2] = path; }
    for (h = 1; h < 6; h++) { gint x; int m = 0; if (n[h] >= 40) continue;
      for (x = wr_clterm_hashlist_start(g_, v, h); x; x = wr_clterm_hashlist_next(g_, v, x)) { gint *nd = rotp(g_, x);
        for (k = 0; k < n[h]; k++) if (st[h][k][0] == nd[CLTERM_HASHNODE_TERM_POS] && st[h][k][1] == nd[CLTERM_HASHNODE_CL_POS] && st[h][k][2] == wg_decode_int(db_, nd[CLTERM_HASHNODE_PATH_POS])) break;
        if (k == n[h]) FAIL("list %d has an entry that was never added", h);
        if (++m > n[h]) FAIL("list %d has more entries than were added", h); }
      if (m != n[h]) FAIL("list %d has %d of %d entries added", h, m, n[h]);
      if (n[h] && wr_clterm_hashlist_len(g_, v, h) != n[h]) FAIL("length of list %d is %ld instead of %d", h, (long)wr_clterm_hashlist_len(g_, v, h), n[h]); }
  }
  wr_clterm_hashlist_free(g_, v);
}
static void m_vecs(void) {
  int n = 1 + rn(6), i, k, used = 0, ctd = rn(2); static gint m[20000]; char set[20000] = {0}; vec v;
  int zero = rn(2); v = ctd ? (zero ? wr_cvec_new_zero(g_, n + 1) : wr_cvec_new(g_, n + 1)) : (zero ? wr_vec_new_zero(g_, n) : wr_vec_new(g_, n));
  if (!v || v[0] != n + ctd) FAIL("new vector has length %ld instead of %d", v ? (long)v[0] : -1, n + ctd);
  if (ctd && v[1] != 2) FAIL("new counted vector starts at %ld", (long)v[1]);
  used = ctd ? 2 : 1; if (zero) for (i = 1 + ctd; i <= n + ctd; i++) { set[i] = 1; m[i] = 0; }
  for (i = 0; i < 60; i++) {
    gint e = ((gint)rnd() << 32) ^ rnd(); int p = ctd && rn(2) ? used : (1 + ctd) + rn(rn(4) ? 2 * used + 3 : 300); if (p > 15000) p = 1 + ctd + rn(100);
    if (ctd && p == used) v = wr_cvec_push(g_, v, e);
    else v = ctd ? wr_cvec_store(g_, v, p, e) : wr_vec_store(g_, v, p, e);
    if (!v) FAIL("storing failed");
    m[p] = e; set[p] = 1; if (p >= used) used = p + 1;
    if (v[0] < p) FAIL("length %ld after storing at %d", (long)v[0], p);
    if (ctd && v[1] != used) FAIL("next free position is %ld instead of %d after storing at %d", (long)v[1], used, p);
    for (k = 1 + ctd; k < used; k++) if (set[k] && v[k] != m[k]) FAIL("element %d changed from %ld to %ld by storing at %d", k, (long)m[k], (long)v[k], p);
    if (rn(20) == 0) { int q = 1 + rn(3000); gint l = v[0]; v = wr_vec_realloc(g_, v, q); if (!v || v[0] < q || v[0] < l) FAIL("wr_vec_realloc to %d gives length %ld", q, v ? (long)v[0] : -1); }
  }
  wr_vec_free(g_, v);
}
/* simplification against the truth table of the ground atoms that occur */
#define NA_ 7
static T *sa_[NA_]; static int sna_;
static int sid_(T *t) { int i; for (i = 0; i < sna_; i++) if (teq(sa_[i], t)) return i; return -1; }
static int ctrue_(C *c, int m) { int i; for (i = 0; i < c->n; i++) if ((m >> sid_(c->t[i]) & 1) != c->neg[i]) return 1; return 0; }
static int alltrue_(C *c, int n, int m) { int i; for (i = 0; i < n; i++) if (!ctrue_(c + i, m)) return 0; return 1; }
static C sd_[14]; static int sdn_;
static void sprd_(void) { int i; for (i = 0; i < sdn_; i++) { printf(i ? "; " : "stored: "); lpr(sd_ + i); } printf("\n"); }
static void sfail_(const char *m, C *c) { sprd_(); printf("clause: "); lpr(c); printf("\n"); FAIL("%s", m); }
static void sclause_(C *c, int n) { int i; c->n = n; for (i = 0; i < n; i++) { c->t[i] = tcopy(sa_[rn(sna_)], 0, 0, 0); c->neg[i] = rn(2); } }
/* the result is a part of the clause and follows from the clause and what is stored */
static void sres_(const char *f, C *c, gint *r) {
  C o; int i, j, m, used = 0, len = wg_rec_is_rule_clause(db_, r) ? wg_count_clause_atoms(db_, r) : 1;
  if (len > ML) sfail_("the simplified clause has too many literals", c);
  o.n = len;
  for (i = 0; i < len; i++) { int rule = wg_rec_is_rule_clause(db_, r); decdepth_ = 0; o.t[i] = dec(rule ? wg_get_rule_clause_atom(db_, r, i) : encode_record(db_, r), 0); o.neg[i] = rule && wg_atom_meta_is_neg(db_, wg_get_rule_clause_atom_meta(db_, r, i));
    for (j = 0; o.t[i] && j < c->n; j++) if (!(used >> j & 1) && c->neg[j] == o.neg[i] && teq(c->t[j], o.t[i])) { used |= 1 << j; break; }
    if (!o.t[i] || j == c->n) sfail_("the simplified clause has a literal that is not in the clause", c); }
  for (m = 0; m < 1 << sna_; m++) if (alltrue_(sd_, sdn_, m) && ctrue_(c, m) && !ctrue_(&o, m)) { printf("%s gives ", f); lpr(&o); printf("\n"); sfail_("the simplified clause does not follow from the clause and the stored clauses", c); }
}
static void m_simp(void) {
  static int init = 0; C *c = cl_, *d = sd_; int i, j, k, m, v, nu = rn(4), nd = rn(5), r; gint *p; gint *tabs[6]; cvec fb;
  cvec buf = g_->build_buffer;
  if (!init) { init = 1; g_->store_history = 1; g_->print_litterm_selection = 0; }
  tabs[0] = rotp(g_, g_->hash_pos_groundunits); tabs[1] = rotp(g_, g_->hash_neg_groundunits); tabs[2] = rotp(g_, g_->hash_pos_grounddoubles); tabs[3] = rotp(g_, g_->hash_neg_grounddoubles);
  tabs[4] = rotp(g_, g_->hash_pos_active_groundunits); tabs[5] = rotp(g_, g_->hash_neg_active_groundunits);
  for (sna_ = 0; sna_ < NA_; ) { T *t = rg(); if (t->k == 4 && t->a[0]->k == 1 && cname_[t->a[0]->id][0] != '$' && sid_(t) < 0) sa_[sna_++] = t; }
  sna_ = 3 + rn(NA_ - 2);
  g_->proof_found = 0; g_->alloc_err = 0; g_->use_comp_funs = 0; g_->use_comp_funs_strat = 0; g_->use_rewrite_terms_strat = 0; g_->have_rewrite_terms = 0; g_->build_rewrite = 0; g_->build_calc = 0; g_->kb_g = NULL;
  ((cvec)g_->queue_termbuf)[1] = 2; if (g_->answers) (g_->answers)[1] = 2; if (g_->cut_clvec) (g_->cut_clvec)[1] = 0;
  sclause_(c, 1 + rn(4)); build(c, 1);
  for (sdn_ = 0; sdn_ < nu + nd; sdn_++) {
    C *x = d + sdn_; int two = sdn_ >= nu;
    sclause_(x, two ? 2 : 1);
    if (rn(2)) { i = rn(c->n); x->t[0] = tcopy(c->t[i], 0, 0, 0); x->neg[0] = rn(4) ? !c->neg[i] : c->neg[i]; if (two && rn(3)) { j = rn(c->n); x->t[1] = tcopy(c->t[j], 0, 0, 0); x->neg[1] = rn(4) ? c->neg[j] : !c->neg[j]; } }
    build(x, 10 + sdn_);
    if (two) wr_add_cl_to_doublehash(g_, x->rec); else wr_add_cl_to_unithash(g_, x->rec, x->fact ? encode_smallint(0) : wg_get_rule_clause_atom_meta(db_, x->rec, 0)); }
  /* tautology */
  r = wr_tautology_cl(g_, c->rec);
  for (m = 0, v = 1; m < 1 << sna_; m++) if (!ctrue_(c, m)) v = 0;
  if (r && !v) sfail_("wr_tautology_cl reports a clause that is no tautology", c);
  if (!r && v) sfail_("wr_tautology_cl misses a literal and its negation", c);
  /* one literal */
  if (!c->fact) for (i = 0; i < c->n; i++) {
    int sub = rn(2), cut = 0, same = 0, dc = 0; gint a = wg_get_rule_clause_atom(db_, c->rec, i), mt = wg_get_rule_clause_atom_meta(db_, c->rec, i);
    for (k = 0; k < nu; k++) if (teq(d[k].t[0], c->t[i])) { if (d[k].neg[0] == c->neg[i]) same = 1; else cut = 1; }
    fb = NULL; r = wr_atom_cut_and_subsume(g_, a, mt, &fb, sub);
    if (r > 0 && !cut) sfail_("wr_atom_cut_and_subsume cuts a literal that no unit contradicts", c);
    if (r < 0 && !(same && sub)) sfail_("wr_atom_cut_and_subsume reports a literal as subsumed that is not a unit (or was not asked to)", c);
    if (r == 0 && (cut || (sub && same))) sfail_("wr_atom_cut_and_subsume misses a unit", c);
    if (r > 0) { for (k = 0; k < nu; k++) if (d[k].rec == (gint *)fb && teq(d[k].t[0], c->t[i]) && d[k].neg[0] != c->neg[i]) break; if (k == nu) sfail_("wr_atom_cut_and_subsume names a clause that does not contradict the literal", c); }
    fb = NULL; r = wr_atom_doublecut(g_, a, mt, c->rec, i, &fb);
    if (r) { for (k = nu; k < sdn_; k++) if (d[k].rec == (gint *)fb) break;
      if (k == sdn_) sfail_("wr_atom_doublecut names no stored clause", c);
      for (v = 0; v < 2; v++) if (teq(d[k].t[v], c->t[i]) && d[k].neg[v] != c->neg[i]) for (j = 0; j < c->n; j++) if (j != i && teq(d[k].t[1 - v], c->t[j]) && d[k].neg[1 - v] == c->neg[j]) dc = 1;
      if (!dc) { printf("literal %d, named: ", i); lpr(d + k); printf("\n"); sfail_("wr_atom_doublecut cuts a literal although the clause named does not allow it", c); } }
  }
  /* the whole clause */
  for (k = 0; k < 2; k++) {
    ((cvec)g_->queue_termbuf)[1] = 2; g_->proof_found = 0; if (g_->answers) (g_->answers)[1] = 2;
    p = k ? wr_simplify_cl(g_, c->rec, c->mb) : wr_simplify_doublecut_cl(g_, c->rec, c->mb);
    if (g_->alloc_err) { g_->alloc_err = 0; break; }
    if (g_->proof_found) {
      for (m = 0; m < 1 << sna_; m++) if (ctrue_(c, m) && alltrue_(d, sdn_, m)) sfail_(k ? "wr_simplify_cl reports a proof although there is none" : "wr_simplify_doublecut_cl reports a proof although there is none", c); }
    else if (!p) { if (!k) sfail_("wr_simplify_doublecut_cl drops the clause", c);
      if (c->n == 1) sfail_("wr_simplify_cl drops a one-literal clause", c);
      for (m = 0; m < 1 << sna_; m++) if (alltrue_(d, sdn_, m) && !ctrue_(c, m)) sfail_("wr_simplify_cl drops a clause that does not follow from the stored ones", c); }
    else if (p != c->rec) sres_(k ? "wr_simplify_cl" : "wr_simplify_doublecut_cl", c, p);
    else if (wg_rec_is_rule_clause(db_, p)) sres_("simplification in place", c, p);
  }
  g_->proof_found = 0; g_->build_buffer = buf; g_->build_rename = 0;
  for (i = 0; i < 6; i++) for (k = 0; k < sdn_; k++) for (j = 0; j < sd_[k].n; j++) { gint b = bucketof(tabs[i], sd_[k].at[j]); if (tabs[i][b]) ((gint *)rotp(g_, tabs[i][b]))[1] = 2; }
}
/* the queues the next clause is picked from */
#define NQ 40
static void m_prior_(void) {
  int mp = 2 + rn(20), keep = rn(4) ? 0 : 1 + rn(mp), i, k, b; static gint *el[32][80]; static int nf[32], np[32]; gint *q = wr_make_priorqueue(g_, mp), *c;
  if (!q) FAIL("wr_make_priorqueue failed");
  q[PRIORQUEUE_MAX_KEEP_PRIOR_POS] = keep;
  memset(nf, 0, sizeof nf); memset(np, 0, sizeof np);
  for (i = 0; i < 150; i++) {
    if (rn(3)) { int w = rn(10) ? rn(mp + 3) : -1 - rn(3); if (rn(2)) w = rn(3); c = raw_rec(1);
      if (!wr_push_priorqueue(g_, q, c, w)) FAIL("wr_push_priorqueue failed");
      k = w > mp ? mp : w; if (w >= 0 && (!keep || w <= keep)) { if (nf[k] == 80) break; el[k][nf[k]++] = c; } else if (w >= 0 && keep && k <= keep) { if (nf[k] == 80) break; /* above the limit as given */ } }
    else { c = wr_pick_priorqueue(g_, q); for (b = -1, k = 0; k <= mp; k++) if (np[k] < nf[k]) { b = k; break; }
      if (b < 0) { if (c) FAIL("a clause is picked from an empty priority queue"); }
      else { if (!c) { printf("priority %d: ", b); FAIL("a clause of the priority queue is never picked"); }
        if (c != el[b][np[b]]) { printf("priority %d, entry %d: ", b, np[b]); FAIL("not the next clause of the best priority is picked"); } np[b]++; } } }
  wr_free_priorqueue(g_, q);
}
static void m_hyper_(void) {
  static gint *el[400]; int nf = 0, np = 0, i; cvec q = wr_cvec_new(g_, 4 + rn(8)); gint mb[8], *c; q[1] = q[2] = 3; g_->hyper_queue = q;
  for (i = 0; i < 200; i++) {
    if (rn(5) > 1 && i < 150) { c = raw_rec(1); if (!wr_push_cl_hyper_queue(g_, g_->hyper_queue, c, rn(30))) FAIL("wr_push_cl_hyper_queue failed"); el[nf++] = c; }
    else { c = wr_pick_from_hyper_queue(g_, g_->hyper_queue, mb);
      if (np == nf) { if (c) FAIL("a clause is picked from an empty hyper queue"); }
      else { if (!c) FAIL("a clause of the hyper queue is never picked"); if (c != el[np]) FAIL("not the next clause of the hyper queue is picked"); np++; } } }
  while ((c = wr_pick_from_hyper_queue(g_, g_->hyper_queue, mb))) { if (np == nf || c != el[np++]) FAIL("not the next clause of the hyper queue is picked"); }
  if (np < nf) FAIL("a clause of the hyper queue is never picked");
  wr_vec_free(g_, g_->hyper_queue); g_->hyper_queue = wr_cvec_new(g_, 20); g_->hyper_queue[1] = g_->hyper_queue[2] = 3;
}
static void m_queue(void) {
  static C c[NQ]; static int pushed[NQ], picked[NQ], w[NQ]; static const int roles[] = {0, 1, 2, 3, 4, 5, 10, 11, 12, 77}; int n = 5 + rn(NQ - 5), i, k, np = 0, old = -1; gint qs, *p, mb[16], save = g_->clpick_queues;
  for (i = 0; i < 20; i++) { m_prior_(); m_hyper_(); }
  g_->cl_pick_queue_strategy = rn(5); g_->pick_given_queue_ratio = rn(7); g_->next_pick_given_queue_block_nr = 0; g_->alloc_err = 0;
  qs = wr_create_clpick_queues(g_, 4); if (!qs) FAIL("wr_create_clpick_queues failed"); g_->clpick_queues = qs;
  for (i = 0; i < n; i++) { rclause(c + i, 1 + rn(3), 1, 0, 2); build(c + i, 1 + i); pushed[i] = picked[i] = 0; w[i] = rn(8) ? rn(rn(2) ? 30 : 12000) : -1;
    ((gint *)decode_record(db_, c[i].rec[RECORD_HEADER_GINTS + CLAUSE_HISTORY_POS]))[RECORD_HEADER_GINTS + HISTORY_PRIORITY_POS] = wg_encode_int(db_, roles[rn(10)]); }
#define PICKED_(P) { for (k = 0; k < np; k++) if (c[k].rec == (P)) break; if (k == np) FAIL("something is picked that is not in the queues"); picked[k]++; \
    if (k != old && picked[k] > pushed[k] * (1 + (w[k] >= 0))) { printf("clause %d: ", k); FAIL("a clause is picked more often than it was put into the queues"); } }
  while (np < n) {
    if (rn(3)) { wr_push_cl_clpick_queues(g_, qs, c[np].rec, w[np]); pushed[np++]++; }
    else { p = wr_pick_from_clpick_queues(g_, rotp(g_, qs), mb); if (p) { PICKED_(p) } else for (k = 0; k < np; k++) if (!picked[k]) { printf("clause %d of %d, strategy %d, ratio %d: ", k, np, (int)g_->cl_pick_queue_strategy, (int)g_->pick_given_queue_ratio); FAIL("no clause is picked although one in the queues has never been picked"); } } }
  /* new light clauses all the time: the ones put in first must come nevertheless */
  if (rn(2)) { for (i = 0; i < 1200; i++) { k = rn(n); if (w[k] < 0) continue; wr_push_cl_clpick_queues(g_, qs, c[k].rec, 1); pushed[k]++; p = wr_pick_from_clpick_queues(g_, rotp(g_, qs), mb); if (!p) FAIL("no clause is picked although there are some"); PICKED_(p) }
    for (k = 0; k < n; k++) if (!picked[k]) { printf("clause %d of %d, weight %d, strategy %d, ratio %d: ", k, n, w[k], (int)g_->cl_pick_queue_strategy, (int)g_->pick_given_queue_ratio); FAIL("a clause waits for ever while new ones are picked"); } }
  for (i = 0; (p = wr_pick_from_clpick_queues(g_, rotp(g_, qs), mb)); i++) { PICKED_(p) if (i > 5000) FAIL("picking does not come to an end"); }
  for (k = 0; k < n; k++) if (!picked[k]) { printf("clause %d of %d, weight %d, strategy %d, ratio %d: ", k, n, w[k], (int)g_->cl_pick_queue_strategy, (int)g_->pick_given_queue_ratio); FAIL("a clause in the queues is never picked"); }
  wr_free_clpick_queues(g_, rotp(g_, qs)); g_->clpick_queues = save;
}
int main(int argc, char **argv) {
  const char *mode = argc > 3 ? argv[3] : "all";
  wit_init(argc, argv); banks_reset(); adv_ = 1; bigc_ = 0;
  while (!timeup()) {
    it++; blk_reset();
    if (!strcmp(mode, "simp")) { m_simp(); continue; }
    if (!strcmp(mode, "queue")) { m_queue(); continue; }
    if (!strcmp(mode, "table") || it % 4 == 0) m_table();
    else if (!strcmp(mode, "store") || it % 4 == 1) m_store();
    else if (!strcmp(mode, "lists") || it % 4 == 2) m_lists_();
    else m_vecs();
  }
  printf("ok %ld iterations of %s\n", it, mode);
  return 0;
}
