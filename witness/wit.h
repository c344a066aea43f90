/* Replay harness support: the real prover code is linked in; terms are built twice, once as an
   independent tree (the oracle works on trees only) and once as the encoded term of the real code. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include "Reasoner/rincludes.h"
#include "Db/dbmem.h"

static unsigned long long rs_ = 88172645463325252ULL;
static unsigned rnd(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return (unsigned)(rs_ >> 11); }
static int rn(int n) { return n <= 0 ? 0 : rnd() % n; }
static void seedrng(long s) { int i; rs_ = 88172645463325252ULL ^ ((unsigned long long)s * 0x9E3779B97F4A7C15ULL); if (!rs_) rs_ = 1; for (i = 0; i < 20; i++) rnd(); }
static time_t t_end_;
static int timeup(void) { return time(NULL) >= t_end_; }

typedef struct T { int k; long id; double d; int n; struct T *a[8]; } T;   /* k: 0 var, 1 const, 2 int, 3 double, 4 compound, 5 string */
static T tpool_[200000]; static int tn_;
static T *tnew(int k, long id) { T *t = &tpool_[tn_++]; if (tn_ > 199990) { printf("pool\n"); exit(3); } memset(t, 0, sizeof *t); t->k = k; t->id = id; return t; }

static void *db_; static glb *g_;
static gint *blk_; static long blkn_, blkp_;
static gint consts_[32]; static gint ints_[2][32]; static gint dbls_[2][32]; static gint sstr_[2][8];
static long intv_[32] = {0, 1, 2, -1, 500000000L, -500000000L, 3000000000L, -3000000000L, 9007199254740993L, 9007199254740992L, 7, 17, 1L << 60, (1L << 60) + 1, (1L << 60) - 1, -(1L << 60), -(1L << 60) - 1, (1L << 62), (1L << 62) + 1, (1L << 62) + (1L << 32), 0x7fffffffffffffffL, 0x7ffffffffffffffeL, -0x7fffffffffffffffL - 1, -0x7fffffffffffffffL};
static double dblv_[32] = {0.0, -0.0, 1.0, 1.5, -2.25, 1e300, 3.0, 0.1, 0.10000000000000002, 1e-300, 1.0000000001, 4611686018427387904.0, 2.0, 17.0};
static const char *cname_[] = {"a", "b", "c", "d", "f", "g", "h", "p", "q", "r", "gggggggggg", "wwwwwwww", "x1_averyveryverylongconstantname_indeed_long", "k", "m", "n", "$ans", "$ansx", "$an", "=", "qdlkhoy", "wcoggnk"};   /* the last two have the hash INT_MIN */
static const char *sname_[] = {"", "a", "ab", "a string of some length here ok", "another string, and quite long it is", "a string of some length here ok2"};
#define NINT 24
#define NDBL 14
#define NCON 22
static int adv_;   /* also use the constants with extreme hashes */
#define CEQ 19
#define NSTR 6
static void wit_init(int argc, char **argv) {
  int i, c; long secs = argc > 2 ? atol(argv[2]) : 5;
  seedrng(argc > 1 ? atol(argv[1]) : 1);
  t_end_ = time(NULL) + secs;
  setvbuf(stdout, NULL, _IOLBF, 0);
  db_ = wg_attach_local_database(150000000);
  if (!db_) { printf("no db\n"); exit(3); }
  g_ = wr_glb_new_full(db_);
  if (!g_) { printf("no g\n"); exit(3); }
  for (i = 0; i < NCON; i++) consts_[i] = wg_encode_uri(db_, (char *)cname_[i], NULL);
  for (c = 0; c < 2; c++) {
    for (i = 0; i < NINT; i++) ints_[c][i] = wg_encode_int(db_, intv_[i]);
    for (i = 0; i < NDBL; i++) dbls_[c][i] = wg_encode_double(db_, dblv_[i]);
    for (i = 0; i < NSTR; i++) sstr_[c][i] = wg_encode_str(db_, (char *)sname_[i], NULL);
  }
  blkn_ = 400000;
  blk_ = (gint *)wg_create_raw_record(db_, blkn_) + RECORD_HEADER_GINTS;
  blkn_ -= 10;
}
static void blk_reset(void) { blkp_ = 0; tn_ = 0; }
/* a record with header, meta position and n further fields */
static gint *raw_rec(int n) {
  gint *p = blk_ + blkp_; int i;
  blkp_ += n + RECORD_HEADER_GINTS;
  if (blkp_ >= blkn_) { printf("blk\n"); exit(3); }
  p[0] = (gint)((n + RECORD_HEADER_GINTS) * sizeof(gint));
  for (i = 1; i < n + RECORD_HEADER_GINTS; i++) p[i] = 0;
  return p;
}
static gint enc(T *t) {
  int i; gint *p;
  switch (t->k) {
    case 0: return encode_var(t->id);
    case 1: return consts_[t->id];
    case 2: return ints_[rn(2)][t->id];
    case 3: return dbls_[rn(2)][t->id];
    case 5: return sstr_[rn(2)][t->id];
  }
  { gint as[8]; for (i = 0; i < t->n; i++) as[i] = enc(t->a[i]);
    p = raw_rec(t->n + (g_->unify_firstuseterm));
    for (i = 0; i < t->n; i++) p[RECORD_HEADER_GINTS + (g_->unify_firstuseterm) + i] = as[i];
    return encode_record(db_, p); }
}
static int bigc_;   /* prefer numbers stored outside the term */
/* a[0] is the functor */
static T *rterm(int depth, int varlo, int nvars) {
  T *t; int i, r = rn(100);
  if (depth > 0 && r < 50) {
    t = tnew(4, 0); t->n = 2 + rn(rn(12) ? 3 : 7);
    t->a[0] = tnew(1, adv_ && rn(5) == 0 ? 20 + rn(2) : 4 + rn(3)); 
    for (i = 1; i < t->n; i++) t->a[i] = rterm(depth - 1, varlo, nvars);
    return t;
  }
  if (nvars && r < 75) return tnew(0, varlo + rn(nvars));
  r = rn(10);
  if (bigc_ && rn(2)) return tnew(2, 12 + rn(12));
  if (adv_ && rn(12) == 0) return tnew(1, 20 + rn(2));
  if (r < 5) return tnew(1, rn(4));
  if (r < 6) return tnew(1, rn(16));
  if (r < 8) return tnew(2, rn(NINT));
  if (r < 9) return tnew(3, rn(NDBL));
  return tnew(5, rn(NSTR));
}
static T *tcopy(T *t, int varlo, int nvars, int mut) {  /* a copy, sometimes changed */
  T *c; int i;
  if (mut && rn(12) == 0) return rterm(1, varlo, nvars);
  c = tnew(t->k, t->id); c->n = t->n;
  if (t->k == 0 && nvars && mut) c->id = varlo + (t->id % nvars);
  for (i = 0; i < t->n; i++) c->a[i] = (i == 0) ? tnew(1, t->a[0]->id) : tcopy(t->a[i], varlo, nvars, mut);
  return c;
}
static int teq(T *a, T *b) {
  int i;
  if (a == b) return 1;
  if (a->k != b->k) return 0;
  if (a->k == 3) return dblv_[a->id] == dblv_[b->id];
  if (a->k != 4) return a->id == b->id;
  if (a->n != b->n) return 0;
  for (i = 0; i < a->n; i++) if (!teq(a->a[i], b->a[i])) return 0;
  return 1;
}
static void tpr(T *t) {
  int i;
  switch (t->k) {
    case 0: printf("X%ld", t->id); return;
    case 1: printf("%s", cname_[t->id]); return;
    case 2: printf("%ld", intv_[t->id]); return;
    case 3: printf("%g(dbl)", dblv_[t->id]); return;
    case 5: printf("\"%s\"", sname_[t->id]); return;
  }
  tpr(t->a[0]); printf("(");
  for (i = 1; i < t->n; i++) { if (i > 1) printf(","); tpr(t->a[i]); }
  printf(")");
}
#define NV 6000
static T *sub_[NV];
static T *walk(T *t) { while (t->k == 0 && sub_[t->id]) t = sub_[t->id]; return t; }
static int occurs(T *v, T *t) {
  int i; t = walk(t);
  if (t->k == 0) return t->id == v->id;
  for (i = 0; i < t->n; i++) if (occurs(v, t->a[i])) return 1;
  return 0;
}
static int ounify(T *a, T *b) {
  int i; a = walk(a); b = walk(b);
  if (a->k == 0 && b->k == 0 && a->id == b->id) return 1;
  if (a->k == 0) { if (occurs(a, b)) return 0; sub_[a->id] = b; return 1; }
  if (b->k == 0) return ounify(b, a);
  if (a->k != 4 || b->k != 4) return teq(a, b);
  if (a->n != b->n) return 0;
  for (i = 0; i < a->n; i++) if (!ounify(a->a[i], b->a[i])) return 0;
  return 1;
}
/* pattern variables bound to literal subterms of the target */
static int omatch(T *a, T *b) {
  int i;
  if (a->k == 0) { if (sub_[a->id]) return teq(sub_[a->id], b); sub_[a->id] = b; return 1; }
  if (a->k != 4 || b->k != 4) return teq(a, b);
  if (a->n != b->n) return 0;
  for (i = 0; i < a->n; i++) if (!omatch(a->a[i], b->a[i])) return 0;
  return 1;
}
static T *oapply(T *t) {
  T *c; int i; t = walk(t);
  if (t->k != 4) return t;
  c = tnew(4, 0); c->n = t->n;
  for (i = 0; i < t->n; i++) c->a[i] = oapply(t->a[i]);
  return c;
}
static int decdepth_;
/* the encoded term back as a tree; with bindings: variables followed through the banks */
static T *dec(gint x, int follow) {
  int i; T *t; gint *p;
  if (++decdepth_ > 300) { decdepth_--; return NULL; }
  if (isvar(x)) {
    gint v = decode_var(x);
    if (v < 0 || v >= NROF_VARBANKS * NROF_VARSINBANK) { decdepth_--; return NULL; }
    if (follow && (g_->varbanks)[v] != UNASSIGNED) { t = dec((g_->varbanks)[v], follow); decdepth_--; return t; }
    decdepth_--; return tnew(0, v);
  }
  if (isdatarec(x)) {
    p = decode_record(db_, x); t = tnew(4, 0); t->n = get_record_len(p) - (g_->unify_firstuseterm);
    if (t->n < 0 || t->n > 8) { decdepth_--; return NULL; }
    for (i = 0; i < t->n; i++) { t->a[i] = dec(p[RECORD_HEADER_GINTS + (g_->unify_firstuseterm) + i], follow); if (!t->a[i]) { decdepth_--; return NULL; } }
    decdepth_--; return t;
  }
  decdepth_--;
  for (i = 0; i < NCON; i++) if (consts_[i] == x) return tnew(1, i);
  for (i = 0; i < NINT; i++) if (ints_[0][i] == x || ints_[1][i] == x) return tnew(2, i);
  for (i = 0; i < NDBL; i++) if (dbls_[0][i] == x || dbls_[1][i] == x) return tnew(3, i);
  for (i = 0; i < NSTR; i++) if (sstr_[0][i] == x || sstr_[1][i] == x) return tnew(5, i);
  return NULL;
}
static long vmap_[NV], vmapr_[NV];
static void varreset(void) { memset(vmap_, -1, sizeof vmap_); memset(vmapr_, -1, sizeof vmapr_); }
static int variant(T *a, T *b) {
  int i;
  if (a->k != b->k) return 0;
  if (a->k == 0) {
    if (vmap_[a->id] < 0 && vmapr_[b->id] < 0) { vmap_[a->id] = b->id; vmapr_[b->id] = a->id; return 1; }
    return vmap_[a->id] == b->id && vmapr_[b->id] == a->id;
  }
  if (a->k != 4) return teq(a, b);
  if (a->n != b->n) return 0;
  for (i = 0; i < a->n; i++) if (!variant(a->a[i], b->a[i])) return 0;
  return 1;
}
static int banks_clear(void) {
  int i;
  for (i = 0; i < NROF_VARBANKS * NROF_VARSINBANK; i++) if ((g_->varbanks)[i] != UNASSIGNED) return 0;
  return 1;
}
static void banks_reset(void) { 
  int i; for (i = 0; i < NROF_VARBANKS * NROF_VARSINBANK; i++) (g_->varbanks)[i] = UNASSIGNED;
  ((vec)(g_->varstack))[1] = 2; }
#define FAIL(...) do { printf("FAIL: "); printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
