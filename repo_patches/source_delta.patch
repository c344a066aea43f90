From d96e1a60d25fc8c32ce41dd0cc7381527c548754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:34 +0000
Subject: [PATCH 1/8] fix: matching a constant pattern against a compound term
 read the constant as a record

---
 Reasoner/unify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 20783ef..1fd03ab 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -303,6 +303,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // x is a constant not equal to y
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -378,6 +379,7 @@ gint wr_eqmodvars_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // x is a constant not equal to y
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -483,6 +485,7 @@ gint wr_nomatch_term_uniquevars(glb* g, gint x, gint y, int uniquestrflag) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 0;  
   }   
   if (isvar(y)) return 1; // x is not var, y is var
+  if (!isdatarec(x)) return 2; // x is a constant not equal to y
   // x and y cannot be vars
   if (!isdatarec(y)) return 2; // x is datarec but y is a const    
   // now x and y are different datarecs
-- 
2.43.0


From 202ec90a6b3bf989a8fdbee7ba6334f3c3d491f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 2/8] fix: integer quotients and remainders were rounded
 wrongly

---
 Reasoner/build.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c1bdce..631b3f6 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1339,32 +1339,38 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         ri=ai / bi;
         break;  
       case COMP_FUN_QUOTIENT_E:
+        // rounds down for a positive divisor, up for a negative divisor
         if (!bi) return encode_record(db,tptr);
-        if (bi<0) rd=floor((double)ai / (double)bi);
-        else rd=ceil((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        ri=ai / bi;
+        if (ai % bi < 0) ri=(bi>0) ? ri-1 : ri+1;
         break;  
       case COMP_FUN_QUOTIENT_T:
         if (!bi) return encode_record(db,tptr);
-        rd=trunc((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        ri=ai / bi;
         break;   
       case COMP_FUN_QUOTIENT_F:
         if (!bi) return encode_record(db,tptr);
-        rd=floor((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        ri=ai / bi;
+        if ((ai % bi) && ((ai<0)!=(bi<0))) ri=ri-1;
         break;   
       case COMP_FUN_REMAINDER_E:
+        // never negative
         if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        ri=(bi==-1) ? 0 : (gint)(ai % bi);
+        if (ri<0) ri=(bi>0) ? ri+bi : ri-bi;
         break;  
       case COMP_FUN_REMAINDER_T:
         if (!bi) return encode_record(db,tptr);
         ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
         break;   
       case COMP_FUN_REMAINDER_F:
+        // sign of the divisor
         if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        ri=(bi==-1) ? 0 : (gint)(ai % bi);
+        if (ri && ((ri<0)!=(bi<0))) ri=ri+bi;
         break;      
       default:
         return encode_record(db,tptr);
-- 
2.43.0


From d44ad2fb8ef93be88114fe9d3db0ba439c8c9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 3/8] fix: real quotient_e and remainders were rounded wrongly

---
 Reasoner/build.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 631b3f6..33e9c92 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1399,8 +1399,8 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break; 
       case COMP_FUN_QUOTIENT_E:       
         if (bd==0.0) return encode_record(db,tptr);        
-        if (bd<0) rd=floor(ad/bd);
-        else rd=ceil(ad/bd);
+        if (bd<0) rd=ceil(ad/bd);
+        else rd=floor(ad/bd);
         if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);        
         break;  
@@ -1417,25 +1417,18 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         return wg_encode_int(g->local_db,ri);
         break;  
       case COMP_FUN_REMAINDER_E:       
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);        
+        if (bd==0.0) return encode_record(db,tptr);
+        rd=fmod(ad,bd);
+        if (rd<0) rd=rd+fabs(bd);
         break;  
       case COMP_FUN_REMAINDER_T:        
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
+        if (bd==0.0) return encode_record(db,tptr);
+        rd=fmod(ad,bd);
         break;   
       case COMP_FUN_REMAINDER_F:
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
+        if (bd==0.0) return encode_record(db,tptr);
+        rd=fmod(ad,bd);
+        if (rd!=0.0 && ((rd<0)!=(bd<0))) rd=rd+bd;
         break;      
       default: 
         return encode_record(db,tptr);
-- 
2.43.0


From b1bfbe4e37a693d7f76d680757a76727a729e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 4/8] fix: comparing an integer with a real of equal or nearby
 value

---
 Reasoner/build.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 33e9c92..7f143c1 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1258,12 +1258,29 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
 #endif  
 }
 
+/* exact comparison of an integer with a finite double: -1, 0 or 1 */
+
+static int wr_cmp_gint_double(gint i, double d) {
+  gint di;
+
+  // both bounds are exact doubles
+  if (d>=9223372036854775808.0) return -1;
+  if (d<-9223372036854775808.0) return 1;
+  di=(gint)d; // rounds towards zero
+  if (i<di) return -1;
+  if (i>di) return 1;
+  if (d>(double)di) return -1; // a fractional part: di is exact as a double
+  if (d<(double)di) return 1;
+  return 0;
+}
+
 gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) { 
   void* db=g->db;
   int len;
   gint a,b;
   gint atype, btype;
   double ad,bd;
+  int cmp;
 
   len=get_record_len(tptr);
   if (len<(g->unify_firstuseterm)+3) return encode_record(db,tptr);  
@@ -1287,16 +1304,26 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
     }         
   } else { 
     // double case
-    if (atype==WG_INTTYPE) ad=(double)(wg_decode_int(db,a));
-    else ad=wg_decode_double(db,a);
-    if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
-    else bd=wg_decode_double(db,b);
-    if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
+    if (atype==WG_INTTYPE) {
+      bd=wg_decode_double(db,b);
+      if (!isfinite(bd)) return encode_record(db,tptr);
+      cmp=wr_cmp_gint_double(wg_decode_int(db,a),bd);
+    } else if (btype==WG_INTTYPE) {
+      ad=wg_decode_double(db,a);
+      if (!isfinite(ad)) return encode_record(db,tptr);
+      cmp=0-wr_cmp_gint_double(wg_decode_int(db,b),ad);
+    } else {
+      ad=wg_decode_double(db,a);
+      bd=wg_decode_double(db,b);
+      if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
+      cmp=(ad<bd) ? -1 : (ad>bd);
+    }
+    if (!cmp) return ifequal;
     if (isless) {
-      if (ad < bd) return ACONST_TRUE;
+      if (cmp<0) return ACONST_TRUE;
       else return ACONST_FALSE; 
     } else {
-      if (ad > bd) return ACONST_TRUE;
+      if (cmp>0) return ACONST_TRUE;
       else return ACONST_FALSE; 
     }                  
   }  
-- 
2.43.0


From be3e549091d06d85041f1ec00f42a26e5fed77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 5/8] fix: type predicates were evaluated as $first

---
 Reasoner/build.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 7f143c1..43061e8 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1107,6 +1107,8 @@ gint wr_compute_from_termptr(glb* g, gptr tptr, int comp) {
     case COMP_FUN_IS_MAP:
     case COMP_FUN_IS_ATOM:
     case COMP_FUN_IS_UNIQUE:
+      res=wr_compute_fun_arith1(g,tptr,comp);
+      break;
     case COMP_FUN_FIRST:  
       res=wr_compute_fun_list(g,tptr,1);
       break;
-- 
2.43.0


From 3c93a1ae1dbbbff282c948bbd3ffce1452bdd600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 6/8] fix: $substr and $substrat compared one character and
 non-distinct symbols

---
 Reasoner/build.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 43061e8..d76e942 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1485,6 +1485,8 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
   b=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
   btype=wg_get_encoded_type(db,b);
   if (btype!=WG_URITYPE) return encode_record(db,tptr);
+  // only distinct symbols have known strings
+  if (!wr_uri_is_unique(g,a) || !wr_uri_is_unique(g,b)) return encode_record(db,tptr);
   as=wg_decode_uri(db,a);
   bs=wg_decode_uri(db,b);
   if(!as || !bs) return encode_record(db,tptr);
@@ -1495,16 +1497,16 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       else return ACONST_TRUE;
       break;
     case COMP_FUN_IS_SUBSTRAT: 
+      if (len<(g->unify_firstuseterm)+4) return encode_record(db,tptr);
       c=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)+1];
       ctype=wg_get_encoded_type(db,c);
       if (ctype!=WG_INTTYPE) return encode_record(db,tptr);
       ci=wg_decode_int(db,c);
-      if (ci<0) return encode_record(db,tptr);
       len=strlen(bs);
-      if (ci>len) return encode_record(db,tptr);      
       len2=strlen(as);
-      if (len2+ci>len) return encode_record(db,tptr);
-      itmp=memcmp(bs+ci,as,1);
+      // positions where A does not fit into B
+      if (ci<0 || ci>len || len2>len-ci) return ACONST_FALSE;
+      itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
       break;
-- 
2.43.0


From fbef475aaa1cf70d09790a3d159d5f3c7e12d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 7/8] fix: an equation side of a literal beyond the path limit
 was stored as a side of another literal

---
 Reasoner/clstore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Reasoner/clstore.c b/Reasoner/clstore.c
index b774727..fe7af5a 100644
--- a/Reasoner/clstore.c
+++ b/Reasoner/clstore.c
@@ -619,6 +619,11 @@ int wr_cl_store_eq_arg(glb* g, gptr cl, gint term, int termtype, int litnr, int
   wr_print_clause(g,cl);
   wr_printf("\nwtermtype %d litnr %d leftflag %d\n",termtype,litnr,leftflag);
 #endif  
+  // the literal number has to fit into the path: a larger one would name another literal
+  if (litnr>PARA_TERMPATH_MAXLITNR) {
+    (g->stat_internlimit_discarded_para)++;
+    return 0;
+  }
   if (termtype==WG_RECORDTYPE) {
     tptr=rotp(g,term);
     fun=tptr[RECORD_HEADER_GINTS+(g->unify_funpos)];
-- 
2.43.0


From 51b20ce57ece2b57f41d211584d5e0c66d3916a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:24 +0000
Subject: [PATCH 8/8] fix: a symbol with hash INT_MIN got a negative hash
 bucket and aborted the prover

---
 Reasoner/hash.c | 4 +++-
 Reasoner/hash.h | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Reasoner/hash.c b/Reasoner/hash.c
index 81d4754..87561fa 100644
--- a/Reasoner/hash.c
+++ b/Reasoner/hash.c
@@ -439,13 +439,15 @@ gint wr_term_basehash(glb* g, gint enc) {
       hash=2;
       break;
   }
+  // take the absolute value after the modulo: 0-INT_MIN is not representable
+  hash=hash%(NROF_CLTERM_HASHVEC_ELS-3);
   if (hash<0) hash=0-hash;
 #ifdef DEBUG
   wr_printf("wr_termhash computed hash %d using NROF_CLTERM_HASHVEC_ELS-2 %d gives final res %d \n",
          hash,NROF_CLTERM_HASHVEC_ELS-2,0+(hash%(NROF_CLTERM_HASHVEC_ELS-2)));
 #endif 
  
-  return (gint)(1+(hash%(NROF_CLTERM_HASHVEC_ELS-3)));
+  return (gint)(1+hash);
 }
 
 
diff --git a/Reasoner/hash.h b/Reasoner/hash.h
index 82f40ea..a4d5cec 100644
--- a/Reasoner/hash.h
+++ b/Reasoner/hash.h
@@ -58,7 +58,7 @@
 
 
 #define WR_HASH_ADD(toadd,orig) ((toadd) + ((orig) << 6) + ((orig) << 16) - (orig))
-#define WR_HASH_NORM(tonorm,maxsize) (1+((abs((int)tonorm)) % ((maxsize)-2)))
+#define WR_HASH_NORM(tonorm,maxsize) (1+abs(((int)(tonorm)) % ((maxsize)-2)))
 
 /* ==== Protos ==== */
 
-- 
2.43.0

