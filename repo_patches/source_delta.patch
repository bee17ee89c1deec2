From 96cb9b0fdb3bb5febb0762feaa1cb3d2a8f752c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 01/70] fix: cee_list_iterate returned an uninitialised value
 for an empty list

---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index 9e70323..5c3a1cd 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3838,7 +3838,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From 7ae53d0d46982f835a5689fbff7ad967e54ea6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 02/70] fix: a map's insertion-order list took claims on (and
 freed) keys held under the no-op policy

---
 map.c         | 3 ++-
 release/cee.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index ee52dd6..a0a7915 100644
--- a/map.c
+++ b/map.c
@@ -84,7 +84,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* it only records the order, the tuples in the tree own the keys */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
diff --git a/release/cee.c b/release/cee.c
index 5c3a1cd..4578886 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2537,7 +2537,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* it only records the order, the tuples in the tree own the keys */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
-- 
2.43.0


From feeeb7faa1c18d25c66d928f29c787ac1e631199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 03/70] fix: garbage collection freed the insertion-order list
 of a live map

---
 map.c         | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/map.c b/map.c
index a0a7915..d5af886 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
diff --git a/release/cee.c b/release/cee.c
index 4578886..22c97fe 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2521,6 +2521,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
-- 
2.43.0


From a2288515911fb2524f627f4857840ea160c969e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 04/70] fix: null maps and sets are documented to read as empty
 but were dereferenced

---
 map.c         | 4 ++--
 release/cee.c | 8 ++++++--
 set.c         | 4 ++++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index d5af886..0e15348 100644
--- a/map.c
+++ b/map.c
@@ -154,7 +154,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) * b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
@@ -180,7 +180,7 @@ static void cee_map_ordered_key_delete(struct S(header) *b, void *deleted_key){
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
diff --git a/release/cee.c b/release/cee.c
index 22c97fe..4a176fc 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2607,7 +2607,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2633,7 +2633,7 @@ static void cee_map_ordered_key_delete(struct _cee_map_header *b, void *deleted_
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2939,11 +2939,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
@@ -2990,6 +2992,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3022,6 +3025,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index 88ca5ff..fa44b3a 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
@@ -147,6 +149,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -179,6 +182,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From 014c78a89be5e009f6f1333ca9393e25de2914c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 05/70] fix: deleting a non-empty set dereferenced a null
 deletion policy

---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 4a176fc..59807c9 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2894,7 +2894,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index fa44b3a..9397c7f 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From 9e96c6b7d867e9714a1f2c8710893bcf9adc4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 06/70] fix: adding an element to a set that already holds it
 counted it twice

---
 release/cee.c | 18 ++++++------------
 set.c         | 19 +++++++------------
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 59807c9..46665d4 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2956,19 +2956,13 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
-  void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
-
-  if (oldp == NULL)
-    cee_segfault();
-  else if (*oldp != (void *)val) {
-    // should val be freed
+  /* an equal element (it can be val itself) is already in the set */
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
     return;
-  }
-  else {
-    h->size ++;
-    cee_incr_indegree(h->del_policy, val);
-  }
-  return;
+  if (musl_tsearch(h, val, h->_, _cee_set_cmp) == NULL)
+    cee_segfault();
+  h->size ++;
+  cee_incr_indegree(h->del_policy, val);
 }
 
 static void _cee_set_del(void * cxt, void * p) {
diff --git a/set.c b/set.c
index 9397c7f..71e3284 100644
--- a/set.c
+++ b/set.c
@@ -113,19 +113,14 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
-  void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
-  
-  if (oldp == NULL)
-    cee_segfault();
-  else if (*oldp != (void *)val) {
-    // should val be freed
+  /* an equal element (it can be val itself) is already in the set */
+  if (musl_tfind(h, val, h->_, S(cmp)))
     return;
-  }
-  else {
-    h->size ++;
-    cee_incr_indegree(h->del_policy, val);
-  }
-  return;
+
+  if (musl_tsearch(h, val, h->_, S(cmp)) == NULL)
+    cee_segfault();
+  h->size ++;
+  cee_incr_indegree(h->del_policy, val);
 }
     
 static void S(del)(void * cxt, void * p) {
-- 
2.43.0


From 8ec225eee671d08457c82eb18358a6eed7f6598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 07/70] fix: removing an element from a set did not withdraw
 the set's claim on it

---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 46665d4..b8a2f2b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3028,6 +3028,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index 71e3284..74707e0 100644
--- a/set.c
+++ b/set.c
@@ -186,6 +186,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From e7627b8f2a0623152a964d519f208db5c7124935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 08/70] fix: replacing a map value miscounted the claims when
 it was unchanged or chosen by the merge function

---
 map.c         | 33 ++++++++++++++++++---------------
 release/cee.c | 32 +++++++++++++++++---------------
 2 files changed, 35 insertions(+), 30 deletions(-)

diff --git a/map.c b/map.c
index 0e15348..9756ac9 100644
--- a/map.c
+++ b/map.c
@@ -121,31 +121,34 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   if( key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
 
-  struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
-  oldp = musl_tsearch(b, t, b->_, S(cmp));
-
-  if (oldp == NULL)
-    cee_segfault(); /* run out of memory */
-  else if (*oldp != t) {
-    t1 = *oldp;
-    void *old_value = t1->_[1];
+  struct cee_tuple k = { key, NULL }, *t, **oldp;
+  oldp = musl_tfind(b, &k, b->_, S(cmp));
+  if (oldp) {
+    t = *oldp;
+    void *old_value = t->_[1];
     void *new_value = value;
     if (merge)
       new_value = merge(ctx, old_value, new_value);
 
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
-      t1->_[1] = new_value; 
+      t->_[1] = new_value; 
+      cee_incr_indegree(b->del_policies._.val, new_value); /* increase the rc of new value */
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
-    cee_del(t);    
+    if (key != t->_[0]) {
+      /* the map keeps the key it has, free this one if nothing else holds it */
+      cee_incr_indegree(b->del_policies._.key, key);
+      cee_del_e(b->del_policies._.key, key);
+    }
     return old_value;
-  }else{
-    cee_list_append(b->insertion_ordered_keys, t->_[0]);
-    b->size ++;
   }
+
+  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  if (musl_tsearch(b, t, b->_, S(cmp)) == NULL)
+    cee_segfault(); /* run out of memory */
+  cee_list_append(b->insertion_ordered_keys, t->_[0]);
+  b->size ++;
   return NULL;
 }
 
diff --git a/release/cee.c b/release/cee.c
index b8a2f2b..7647981 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2574,31 +2574,33 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
   if( key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
 
-  struct cee_tuple *t, *t1 = NULL, **oldp;
-  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
-  oldp = musl_tsearch(b, t, b->_, _cee_map_cmp);
-
-  if (oldp == NULL)
-    cee_segfault(); /* run out of memory */
-  else if (*oldp != t) {
-    t1 = *oldp;
-    void *old_value = t1->_[1];
+  struct cee_tuple k = { key, NULL }, *t, **oldp;
+  oldp = musl_tfind(b, &k, b->_, _cee_map_cmp);
+  if (oldp) {
+    t = *oldp;
+    void *old_value = t->_[1];
     void *new_value = value;
     if (merge)
       new_value = merge(ctx, old_value, new_value);
 
     /* detach old_value  and capture new_value */
     if (new_value != old_value) {
-      t1->_[1] = new_value;
+      t->_[1] = new_value;
+      cee_incr_indegree(b->del_policies._.val, new_value); /* increase the rc of new value */
       cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
     }
-    cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
-    cee_del(t);
+    if (key != t->_[0]) {
+      /* the map keeps the key it has, free this one if nothing else holds it */
+      cee_incr_indegree(b->del_policies._.key, key);
+      cee_del_e(b->del_policies._.key, key);
+    }
     return old_value;
-  }else{
-    cee_list_append(b->insertion_ordered_keys, t->_[0]);
-    b->size ++;
   }
+  t = cee_tuple_mk_e(b->cs.state, b->del_policies.a, key, value);
+  if (musl_tsearch(b, t, b->_, _cee_map_cmp) == NULL)
+    cee_segfault(); /* run out of memory */
+  cee_list_append(b->insertion_ordered_keys, t->_[0]);
+  b->size ++;
   return NULL;
 }
 
-- 
2.43.0


From b824449d52ce6a636ff79840834dba8ea40486c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 09/70] fix: the union of two sets freed elements of the second
 one held under the no-op policy

---
 release/cee.c | 14 +++-----------
 set.c         | 15 ++++-----------
 2 files changed, 7 insertions(+), 22 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 7647981..85c350d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3034,23 +3034,15 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     return k;
   }
 }
+static void _cee_set__add_v(void *cxt, void *v);
 
 struct cee_set * cee_set_union_set (struct cee_state * s, struct cee_set * s1, struct cee_set * s2) {
   struct _cee_set_header * h1 = (struct _cee_set_header *)((void *)((char *)(s1) - (__builtin_offsetof(struct _cee_set_header, _))));
   struct _cee_set_header * h2 = (struct _cee_set_header *)((void *)((char *)(s2) - (__builtin_offsetof(struct _cee_set_header, _))));
   if (h1->cmp == h2->cmp) {
     struct cee_set * s0 = cee_set_mk(s, h1->cmp);
-    struct cee_list * v1 = cee_set_values(s1);
-    struct cee_list * v2 = cee_set_values(s2);
-    int i;
-    for (i = 0; i < cee_list_size(v1); i++)
-      cee_set_add(s0, v1->a[i]);
-
-    for (i = 0; i < cee_list_size(v2); i++)
-      cee_set_add(s0, v2->a[i]);
-
-    cee_del(v1);
-    cee_del(v2);
+    cee_set_iterate(s1, s0, _cee_set__add_v);
+    cee_set_iterate(s2, s0, _cee_set__add_v);
     return s0;
   } else
     cee_segfault();
diff --git a/set.c b/set.c
index 74707e0..5d2845b 100644
--- a/set.c
+++ b/set.c
@@ -191,22 +191,15 @@ void * cee_set_remove(struct cee_set *m, void * key) {
   }
 }
 
+static void S(_add_v)(void *cxt, void *v);
+
 struct cee_set * cee_set_union_set (struct cee_state * s, struct cee_set * s1, struct cee_set * s2) {
   struct S(header) * h1 = FIND_HEADER(s1);
   struct S(header) * h2 = FIND_HEADER(s2);
   if (h1->cmp == h2->cmp) {
     struct cee_set * s0 = cee_set_mk(s, h1->cmp);
-    struct cee_list * v1 = cee_set_values(s1);
-    struct cee_list * v2 = cee_set_values(s2);
-    int i;
-    for (i = 0; i < cee_list_size(v1); i++)
-      cee_set_add(s0, v1->a[i]);
-    
-    for (i = 0; i < cee_list_size(v2); i++)
-      cee_set_add(s0, v2->a[i]);
-    
-    cee_del(v1);
-    cee_del(v2);
+    cee_set_iterate(s1, s0, S(_add_v));
+    cee_set_iterate(s2, s0, S(_add_v));
     return s0;
   } else
     cee_segfault();
-- 
2.43.0


From affd1f5cea8e720e67a60779f02aedeebf36c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 10/70] fix: a resized block was chained with the stale
 successor of its old copy

---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..480ef07 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -4,6 +4,7 @@
  */
 static void S(chain) (struct S(header) * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
diff --git a/release/cee.c b/release/cee.c
index 85c350d..4e1074b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1388,6 +1388,7 @@ struct _cee_boxed_header {
  */
 static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -1803,6 +1804,7 @@ struct _cee_str_header {
  */
 static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2260,6 +2262,7 @@ struct _cee_dict_header {
  */
 static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2425,6 +2428,7 @@ struct _cee_map_header{
  */
 static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -2809,6 +2813,7 @@ struct _cee_set_header {
  */
 static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3124,6 +3129,7 @@ struct _cee_stack_header {
  */
 static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3291,6 +3297,7 @@ struct _cee_tuple_header {
  */
 static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3419,6 +3426,7 @@ struct _cee_triple_header {
  */
 static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3540,6 +3548,7 @@ struct _cee_quadruple_header {
  */
 static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3661,6 +3670,7 @@ struct _cee_list_header {
  */
 static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -3865,6 +3875,7 @@ struct _cee_tagged_header {
  */
 static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4013,6 +4024,7 @@ struct _cee_closure_header {
  */
 static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4129,6 +4141,7 @@ struct _cee_block_header {
  */
 static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4265,6 +4278,7 @@ struct _cee_n_tuple_header {
  */
 static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
@@ -4399,6 +4413,7 @@ struct _cee_env_header {
  */
 static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
   h->cs.state = st;
+  h->cs.trace_next = NULL;
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
-- 
2.43.0


From 87ff1c5ffcb31703fdd5bf2fcb5ac294f18524d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 11/70] fix: a dictionary applied its deletion policy to its
 internal lists instead of its keys and values

---
 dict.c        | 8 ++++----
 release/cee.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dict.c b/dict.c
index fee19b8..2cd14a9 100644
--- a/dict.c
+++ b/dict.c
@@ -35,8 +35,8 @@ static void S(trace)(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       S(de_chain)(m);
       free(m);
@@ -54,10 +54,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
   
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
   
   m->size = size;
diff --git a/release/cee.c b/release/cee.c
index 4e1074b..82b94bc 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2331,8 +2331,8 @@ static void _cee_dict_trace(void *d, enum cee_trace_action ta) {
       free(m);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      cee_del_e(m->del_policy, m->keys);
-      cee_del_e(m->del_policy, m->vals);
+      cee_del(m->keys);
+      cee_del(m->vals);
       musl_hdestroy_r(m->_);
       _cee_dict_de_chain(m);
       free(m);
@@ -2350,10 +2350,10 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   size_t mem_block_size = sizeof(struct _cee_dict_header);
   struct _cee_dict_header * m = malloc(mem_block_size);
   m->del_policy = o;
-  m->keys = cee_list_mk(s, size);
+  m->keys = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->keys);
 
-  m->vals = cee_list_mk(s, size);
+  m->vals = cee_list_mk_e(s, o, size);
   cee_use_realloc(m->vals);
 
   m->size = size;
-- 
2.43.0


From 354c190d8fe9ce8eb18b9a2c514cab6c19c616b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 12/70] fix: an environment did not claim its outer environment
 and variables, but dropped them when deleted

---
 env.c         | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..ac5f3af 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index 82b94bc..680dce9 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4511,6 +4511,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
 
   return &h->_;
 }
-- 
2.43.0


From 3d294d00201e7f200c0e2f7e09bb6c7365d06382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 13/70] fix: the lookup of a name stopped at an environment
 without variables

---
 env.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/env.c b/env.c
index ac5f3af..8bc1d19 100644
--- a/env.c
+++ b/env.c
@@ -73,8 +73,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) ) 
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
   }
diff --git a/release/cee.c b/release/cee.c
index 680dce9..9455647 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4526,8 +4526,8 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
-    if ( (ret = cee_map_find(e->vars, key)) )
+  while (e) {
+    if ( e->vars && (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
   }
-- 
2.43.0


From 598267a955808bf522ca3df9ffa9e6ebb8eabfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 14/70] fix: garbage collection freed live closures and their
 environments

---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index 9455647..1ec87e3 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4093,6 +4093,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From 1b1979bddf25c806ff2d353741ba1aea2cad480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 15/70] fix: cee_str_mkv consumed its argument list twice

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 1ec87e3..d648662 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1916,7 +1916,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
diff --git a/str.c b/str.c
index 458626b..df207c0 100644
--- a/str.c
+++ b/str.c
@@ -77,7 +77,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
-- 
2.43.0


From 0544cc412e062318291085f07afef5a9fa1d53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 16/70] fix: cee_str_strn did not terminate the string

---
 release/cee.c | 1 +
 str.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index d648662..6aaa908 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1903,6 +1903,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = 0;
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index df207c0..21311ab 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = 0;
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From 3c9359e2a72b89e8ee342488065dd143c980a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 17/70] fix: cee_str_mk_e ignored the requested number of bytes
 when given a format

---
 release/cee.c | 3 +++
 str.c         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 6aaa908..363fe73 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1964,7 +1964,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
diff --git a/str.c b/str.c
index 21311ab..116a9ab 100644
--- a/str.c
+++ b/str.c
@@ -125,7 +125,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
-- 
2.43.0


From d1132ef3c3235a6607997ea6b8b5898312cf7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 18/70] fix: cee_str_add read the capacity of a string after
 resizing freed it

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 363fe73..6f21763 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2036,8 +2036,8 @@ struct cee_str * cee_str_add(struct cee_str * str, char c) {
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 116a9ab..188760f 100644
--- a/str.c
+++ b/str.c
@@ -197,8 +197,8 @@ struct cee_str * cee_str_add(struct cee_str * str, char c) {
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From 27cbcd5dd7170f2a6f633224b1ae2f2ee2b18df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 19/70] fix: cee_str_rtrim never trimmed the first character

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 6f21763..cb2300f 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2098,7 +2098,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
diff --git a/str.c b/str.c
index 188760f..d23a961 100644
--- a/str.c
+++ b/str.c
@@ -259,7 +259,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
-- 
2.43.0


From d2650f20b92d86252c0bbc8f47f9a5ec495ba586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 20/70] fix: cee_str_ltrim left the last leading white space

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index cb2300f..29d118e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2113,7 +2113,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index d23a961..3a1d04c 100644
--- a/str.c
+++ b/str.c
@@ -274,7 +274,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From 05205315cf522f5aba26d8ce9ec200e790618065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 21/70] fix: str_replace_all allocated too little, and divided
 by the length of an empty pattern

---
 release/cee.c | 6 +++---
 str.c         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 29d118e..1ce71e8 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2162,12 +2162,12 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  size_t max_matches = old_len ? orig_len/old_len : 0;
+  char *new_str = malloc(orig_len + max_matches * new_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-    if( strncmp(str+i_src, old_substr, old_len) == 0 ){
+    if( old_len && strncmp(str+i_src, old_substr, old_len) == 0 ){
       for( int n = 0; n < new_len; n++ )
         new_str[i_dest+n] = new_substr[n];
       i_dest += new_len;
diff --git a/str.c b/str.c
index 3a1d04c..7d3c418 100644
--- a/str.c
+++ b/str.c
@@ -323,12 +323,12 @@ str_replace_at_offset(const char *str, size_t offset, size_t len, char *new_subs
 char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
-  double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  size_t max_matches = old_len ? orig_len/old_len : 0;
+  char  *new_str = malloc(orig_len + max_matches * new_len + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-    if( strncmp(str+i_src, old_substr, old_len) == 0 ){
+    if( old_len && strncmp(str+i_src, old_substr, old_len) == 0 ){
       for( int n = 0; n < new_len; n++ )
         new_str[i_dest+n] = new_substr[n];
       i_dest += new_len;
-- 
2.43.0


From d4e08097e249beff9841075bde640fa7ce5eb71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 22/70] fix: str_replace_all_ext allocated too little, divided
 by zero, and looped on an empty pattern

---
 release/cee.c | 11 +++--------
 str.c         | 12 +++---------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 1ce71e8..c314b8b 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2189,7 +2189,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  size_t max_new_len = 1; /* the most a character of str can turn into */
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -2207,25 +2207,20 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
 
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
 
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len * max_new_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
   while( i_src < str_len ){
     used_pair = NULL;
     for( int x = 0; x < n_pairs; x++ ){
-      if( i_src + pairs[x].old_len <= str_len
+      if( pairs[x].old_len && i_src + pairs[x].old_len <= str_len
           && strncmp(str+i_src, pairs[x].old_needle, pairs[x].old_len) == 0 ){
         used_pair = pairs+x;
         break;
diff --git a/str.c b/str.c
index 7d3c418..5f02569 100644
--- a/str.c
+++ b/str.c
@@ -350,7 +350,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  size_t max_new_len = 1; /* the most a character of str can turn into */
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -368,25 +368,19 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
     
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
-    
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len * max_new_len; /* make it larger to be safer */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
   while( i_src < str_len ){
     used_pair = NULL;
     for( int x = 0; x < n_pairs; x++ ){
-      if( i_src + pairs[x].old_len <= str_len
+      if( pairs[x].old_len && i_src + pairs[x].old_len <= str_len
           && strncmp(str+i_src, pairs[x].old_needle, pairs[x].old_len) == 0 ){
         used_pair = pairs+x;
         break;
-- 
2.43.0


From 4e0d1fff5706bd674258d5ec1db02e8e36916d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 23/70] fix: garbage collection recursed without end in
 structures that contain themselves

---
 cee-common.c  | 2 ++
 release/cee.c | 9 ++++++---
 state.c       | 7 ++++---
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index effb658..4d90953 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -15,6 +15,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
   
   struct cee_sect * cs = FIND_SECT(p);
+  /* this block has been marked in this cycle, it may be part of a loop */
+  if (ta >= CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
diff --git a/release/cee.c b/release/cee.c
index c314b8b..2884f9d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1247,6 +1247,8 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
 
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
+  /* this block has been marked in this cycle, it may be part of a loop */
+  if (ta >= CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
@@ -4673,10 +4675,11 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   _cee_state_sweep(s, (enum cee_trace_action) mark);
 
-  if (s->next_mark == 0) {
-    s->next_mark = 1;
+  /* 0 is reserved for blocks that have never been marked */
+  if (s->next_mark == 1) {
+    s->next_mark = 2;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 1;
   }
 }
 
diff --git a/state.c b/state.c
index a76f1cb..3d6d45d 100644
--- a/state.c
+++ b/state.c
@@ -148,9 +148,10 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   S(sweep)(s, (enum cee_trace_action) mark);
   
-  if (s->next_mark == 0) {
-    s->next_mark = 1;
+  /* 0 is reserved for blocks that have never been marked */
+  if (s->next_mark == 1) {
+    s->next_mark = 2;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 1;
   }
 }
-- 
2.43.0


From 31053128adb0cd97423a560eb996e260eabbc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 24/70] fix: a boxed u64 did not carry its comparison function

---
 boxed.c       | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/boxed.c b/boxed.c
index 4b2a4a4..507fc9b 100644
--- a/boxed.c
+++ b/boxed.c
@@ -106,6 +106,7 @@ static int S(cmp_u64)(uint64_t v1, uint64_t v2) {
 struct cee_boxed * cee_boxed_from_u64 (struct cee_state * s, uint64_t d) {
   size_t mem_block_size = sizeof(struct cee_boxed);
   struct S(header) * b = S(mk_header)(s, cee_primitive_u64);
+  b->cs.cmp = (void *)S(cmp_u64);
   b->_[0].u64 = d;
   return (struct cee_boxed *)b->_;
 }
diff --git a/release/cee.c b/release/cee.c
index 2884f9d..e03345e 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1537,6 +1537,7 @@ static int _cee_boxed_cmp_u64(uint64_t v1, uint64_t v2) {
 struct cee_boxed * cee_boxed_from_u64 (struct cee_state * s, uint64_t d) {
   size_t mem_block_size = sizeof(struct cee_boxed);
   struct _cee_boxed_header * b = _cee_boxed_mk_header(s, cee_primitive_u64);
+  b->cs.cmp = (void *)_cee_boxed_cmp_u64;
   b->_[0].u64 = d;
   return (struct cee_boxed *)b->_;
 }
-- 
2.43.0


From 5ec481bd000cc915bcd3091a8f93e405c6fc53e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 25/70] fix: sv_chop_by_sv ran past a view shorter than the
 delimiter and kept a delimiter at its end

---
 strview.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strview.c b/strview.c
index 48c477b..7b9c992 100644
--- a/strview.c
+++ b/strview.c
@@ -203,21 +203,20 @@ SVDEF String_View sv_chop_by_sv(String_View *sv, String_View thicc_delim)
 {
     String_View window = sv_from_parts(sv->data, thicc_delim.count);
     size_t i = 0;
-    while (i + thicc_delim.count < sv->count 
+    while (i + thicc_delim.count <= sv->count 
         && !(sv_eq(window, thicc_delim))) 
     {
         i++;
         window.data++;
     }
 
+    if (i + thicc_delim.count > sv->count) {
+        // no delimiter, take everything
+        return sv_chop_left(sv, sv->count);
+    }
+
     String_View result = sv_from_parts(sv->data, i);
 
-    if (i + thicc_delim.count == sv->count) {
-        // include last <thicc_delim.count> characters if they aren't 
-        //  equal to thicc_delim
-        result.count += thicc_delim.count; 
-    }
-    
     // Chop!
     sv->data  += i + thicc_delim.count;
     sv->count -= i + thicc_delim.count;
-- 
2.43.0


From c7c56f17c0a2ec18c2d825ae45ee7a45b3e6e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:11 +0000
Subject: [PATCH 26/70] fix: cee_str_end ran past the block of a string without
 terminator instead of returning NULL

---
 release/cee.c | 11 +----------
 str.c         | 11 +----------
 2 files changed, 2 insertions(+), 20 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index e03345e..6f4beca 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2014,16 +2014,7 @@ struct cee_block * cee_block_empty () {
  */
 char * cee_str_end(struct cee_str * str) {
   struct _cee_str_header * b = (struct _cee_str_header *)((void *)((char *)(str) - (__builtin_offsetof(struct _cee_str_header, _))));
-  /* TODO: fixes this */
-  return (char *)str + strlen((char *)str);
-  /*
-  int i = 0; 
-  for (i = 0;i < b->used; i++)
-    if (b->_[i] == '\0')
-      return (b->_ + i);
-
-  return NULL;
-  */
+  return memchr(b->_, '\0', b->cs.mem_block_size - ((char *)b->_ - (char *)b));
 }
 
 /*
diff --git a/str.c b/str.c
index 5f02569..5b71c84 100644
--- a/str.c
+++ b/str.c
@@ -172,16 +172,7 @@ struct cee_block * cee_block_empty () {
  */
 char * cee_str_end(struct cee_str * str) {
   struct S(header) * b = FIND_HEADER(str);
-  /* TODO: fixes this */
-  return (char *)str + strlen((char *)str);
-  /*
-  int i = 0; 
-  for (i = 0;i < b->used; i++)
-    if (b->_[i] == '\0')
-      return (b->_ + i);
-
-  return NULL;
-  */
+  return memchr(b->_, '\0', b->cs.mem_block_size - ((char *)b->_ - (char *)b));
 }
 
 /*
-- 
2.43.0


From ede9a6f6df24e68b6372e22e2aaa1d64e8b75d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 27/70] fix: the JSON tokenizer read literals, numbers and
 strings past the end of its input

---
 cee-json/release/cee-json.c | 62 +++++++++++++++++++++--------------
 cee-json/tokenizer.c        | 65 +++++++++++++++++++++++--------------
 2 files changed, 79 insertions(+), 48 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..23b491d 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1923,11 +1923,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
 
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -2105,12 +2105,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end) { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end) return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -2128,6 +2128,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   }
   return false; /*  ill formed string */
 }
+static bool digit_at(struct tokenizer *t, char *p) {
+  return p < t->buf_end && isdigit((unsigned char)*p);
+}
+static bool char_at(struct tokenizer *t, char *p, char c) {
+  return p < t->buf_end && c == *p;
+}
 
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
@@ -2137,35 +2143,35 @@ static bool parse_number(struct tokenizer *t) {
   int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
-  if ('-' == *end) {
+  if (char_at(t, end, '-')) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end))
+  if (!digit_at(t, end))
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end))
+  while (digit_at(t, ++end))
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (char_at(t, end, '.')) {
+    if (!digit_at(t, ++end))
       return false;
-    while (isdigit(*++end))
+    while (digit_at(t, ++end))
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (char_at(t, end, 'e') || char_at(t, end, 'E')) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (char_at(t, end, '+') || char_at(t, end, '-'))
       ++end;
-    if (!isdigit(*end))
+    if (!digit_at(t, end))
       return false;
-    while (isdigit(*++end))
+    while (digit_at(t, ++end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -2173,20 +2179,28 @@ static bool parse_number(struct tokenizer *t) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
-  char *endptr=NULL;
+  /* 5th STEP: convert string to number, from a copy as the input may end here */
+  char copy[64], *num = copy, *endptr=NULL;
+  size_t len = end - start;
+  if (len >= sizeof(copy))
+    num = malloc(len + 1);
+  memcpy(num, start, len);
+  num[len] = '\0';
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(num, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(num, &endptr, 10);
   }
+  bool converted = num != endptr;
+  if (num != copy)
+    free(num);
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -2216,17 +2230,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -2245,7 +2259,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..654d170 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,6 +1,7 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
 #include <ctype.h>
+#include <string.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -179,11 +180,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
   
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -361,12 +362,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end) { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end) return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -385,6 +386,14 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+static bool digit_at(struct tokenizer *t, char *p) {
+  return p < t->buf_end && isdigit((unsigned char)*p);
+}
+
+static bool char_at(struct tokenizer *t, char *p, char c) {
+  return p < t->buf_end && c == *p;
+}
+
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
   char *end = start;
@@ -393,35 +402,35 @@ static bool parse_number(struct tokenizer *t) {
   int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
-  if ('-' == *end) {
+  if (char_at(t, end, '-')) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end)) 
+  if (!digit_at(t, end)) 
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end)) 
+  while (digit_at(t, ++end)) 
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if (char_at(t, end, '.')) {
+    if (!digit_at(t, ++end))
       return false;
-    while (isdigit(*++end)) 
+    while (digit_at(t, ++end)) 
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if (char_at(t, end, 'e') || char_at(t, end, 'E')) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if (char_at(t, end, '+') || char_at(t, end, '-'))
       ++end;
-    if (!isdigit(*end)) 
+    if (!digit_at(t, end)) 
       return false;
-    while (isdigit(*++end))
+    while (digit_at(t, ++end))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -429,20 +438,28 @@ static bool parse_number(struct tokenizer *t) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
-  char *endptr=NULL;
+  /* 5th STEP: convert string to number, from a copy as the input may end here */
+  char copy[64], *num = copy, *endptr=NULL;
+  size_t len = end - start;
+  if (len >= sizeof(copy))
+    num = malloc(len + 1);
+  memcpy(num, start, len);
+  num[len] = '\0';
   if (is_exponent || !is_integer) {
     t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+    t->number.real = strtod(num, &endptr);
   }
   else {
     t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+    t->number.i64 = strtoll(num, &endptr, 10);
   }
+  bool converted = num != endptr;
+  if (num != copy)
+    free(num);
 
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -472,17 +489,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -501,7 +518,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
-- 
2.43.0


From ca53c56231997d88592c15a496fb66f5fe8aea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 28/70] fix: JSON numbers with leading zeros were accepted when
 followed by a fraction or an exponent

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/tokenizer.c        | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 23b491d..d83c061 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2153,6 +2153,9 @@ static bool parse_number(struct tokenizer *t) {
   /* 2nd STEP: skips until a non digit char found */
   while (digit_at(t, ++end))
     continue;
+  /*  can't start with zero followed by n digits (ex: 012, -023.5, 00e1) */
+  if ('0' == start[offset_sign] && end - (start + offset_sign) > 1)
+    return false;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (char_at(t, end, '.')) {
@@ -2174,9 +2177,6 @@ static bool parse_number(struct tokenizer *t) {
     while (digit_at(t, ++end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number, from a copy as the input may end here */
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 654d170..891d4ab 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -413,6 +413,10 @@ static bool parse_number(struct tokenizer *t) {
   while (digit_at(t, ++end)) 
     continue;
 
+  /*  can't start with zero followed by n digits (ex: 012, -023.5, 00e1) */
+  if ('0' == start[offset_sign] && end - (start + offset_sign) > 1)
+    return false;
+
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
   if (char_at(t, end, '.')) {
     if (!digit_at(t, ++end))
@@ -433,9 +437,6 @@ static bool parse_number(struct tokenizer *t) {
     while (digit_at(t, ++end))
       continue;
     is_exponent = true;
-  } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
-  else if (is_integer && (end-1) != (start+offset_sign) && '0' == start[offset_sign]) {
-    return false;
   }
 
   /* 5th STEP: convert string to number, from a copy as the input may end here */
-- 
2.43.0


From 1a973ee7caf6d06ae3805a7bfa58d84a4c40e327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 29/70] fix: JSON integers beyond the signed 64-bit range were
 silently changed to its limits

---
 cee-json/release/cee-json.c | 10 ++++++++++
 cee-json/tokenizer.c        | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d83c061..6d07478 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2192,7 +2192,17 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(num, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      t->type = NUMBER_IS_U64;
+      errno = 0;
+      t->number.u64 = strtoull(num, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(num, &endptr);
+    }
   }
   bool converted = num != endptr;
   if (num != copy)
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 891d4ab..efeef34 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <ctype.h>
 #include <string.h>
+#include <errno.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -452,7 +453,17 @@ static bool parse_number(struct tokenizer *t) {
   }
   else {
     t->type = NUMBER_IS_I64;
+    errno = 0;
     t->number.i64 = strtoll(num, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      t->type = NUMBER_IS_U64;
+      errno = 0;
+      t->number.u64 = strtoull(num, &endptr, 10);
+    }
+    if (errno == ERANGE) {
+      t->type = NUMBER_IS_DOUBLE;
+      t->number.real = strtod(num, &endptr);
+    }
   }
   bool converted = num != endptr;
   if (num != copy)
-- 
2.43.0


From 8289de7eb389dcd6e8ef171c5a694b32517d27bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 30/70] fix: a JSON string ending in an unpaired first
 surrogate was accepted

---
 cee-json/release/cee-json.c | 2 ++
 cee-json/tokenizer.c        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 6d07478..a000ad5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2070,6 +2070,8 @@ second_iter:
       d++;
     }
   }
+  if (second_surrogate_expected)
+    goto return_err;
 
   switch (state) {
   case UNESCAPING:
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index efeef34..7dff372 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -329,6 +329,9 @@ second_iter:
     }
   }
 
+  if (second_surrogate_expected)
+    goto return_err;
+
   switch (state) {
   case UNESCAPING:
       if (!utf8_validate(out_start, d))
-- 
2.43.0


From c37bd2cde06fa3879b103faae80b2d3478070573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 31/70] fix: the JSON tokenizer counted a CR LF line end as two
 lines

---
 cee-json/release/cee-json.c | 6 +++++-
 cee-json/tokenizer.c        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index a000ad5..2a7f1c3 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2229,8 +2229,12 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
     case ']':
         t->buf++;
         return c;
-    case '\n':
     case '\r':
+        /* a carriage return and its line feed end one line */
+        if(t->buf + 1 < t->buf_end && t->buf[1] == '\n')
+          break;
+    /* fallthrough */
+    case '\n':
         t->line++;
     /* fallthrough */
     case ' ':
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index 7dff372..dd60c80 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -491,8 +491,12 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
     case ']':
         t->buf++;
         return c;
-    case '\n':
     case '\r':
+        /* a carriage return and its line feed end one line */
+        if(t->buf + 1 < t->buf_end && t->buf[1] == '\n')
+          break;
+    /* fallthrough */
+    case '\n':
         t->line++;
     /* fallthrough */
     case ' ':
-- 
2.43.0


From c9d8ee3662c5dfc0f94e2b64bf6ad69e2b86fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 32/70] fix: cee_json_to_intx silently truncated integers that
 do not fit an int

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 2a7f1c3..ed2ab93 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -394,7 +394,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if (i != (int)i)
+      return ERANGE;
+    *r = (int)i;
     return 0;
   }
   else
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..f902567 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -170,7 +170,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if (i != (int)i)
+      return ERANGE;
+    *r = (int)i;
     return 0;
   }
   else
-- 
2.43.0


From c3e998254a74ab99b9cc094c46fe32750f599c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 33/70] fix: cee_json_object_convert_to_i64 never converted a
 string, and crashed on a missing key

---
 cee-json/release/cee-json.c | 22 ++++++++++------------
 cee-json/value.c            | 22 ++++++++++------------
 2 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index ed2ab93..3fa182a 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -558,17 +558,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
-    if (ip) *ip = i;
-    return 0;
-  }
-  if (scanned > 1) {
+  char *end;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end == s || *end != '\0' || errno == ERANGE)
     return 1;
-  }
-  return 1;
+  if (ip) *ip = i;
+  return 0;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
@@ -578,12 +574,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
 
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    /* the old value is left to the state, as others may hold it */
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index f902567..a4c4d4a 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -334,17 +334,13 @@ bool cee_json_object_rename(struct cee_json *j, char *old_key, char *new_key) {
 }
 
 static int str2i64(char *s, int64_t *ip) {
-  int64_t i = 0;
-  char c ;
-  int scanned = sscanf(s, "%" SCNd64 "%c", &i, &c);
-  if (scanned == 1) {
-    if (ip) *ip = i;
-    return 0;
-  }
-  if (scanned > 1) {
+  char *end;
+  errno = 0;
+  int64_t i = strtoll(s, &end, 10);
+  if (end == s || *end != '\0' || errno == ERANGE)
     return 1;
-  }
-  return 1;
+  if (ip) *ip = i;
+  return 0;
 }
 
 bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
@@ -354,12 +350,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
   
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    /* the old value is left to the state, as others may hold it */
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
-- 
2.43.0


From 554cbe0642f46dcaa6499e1adb6e06efc1a8b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 34/70] fix: cee_json_listify crashed on an object

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 3fa182a..bdc92ce 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -277,7 +277,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
diff --git a/cee-json/value.c b/cee-json/value.c
index a4c4d4a..ceffde3 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -53,7 +53,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
-- 
2.43.0


From 6353327f5e6d33bc8d3755cfb7d9257ede4b663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 35/70] fix: appending under the key of a number, boolean or
 null crashed

---
 cee-json/release/cee-json.c | 4 +++-
 cee-json/value.c            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index bdc92ce..b60ac34 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -649,7 +649,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* any kind of value, also one that has no state of its own */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index ceffde3..8018137 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -425,7 +425,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* any kind of value, also one that has no state of its own */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 1);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From f2682f009e46d2eb3e27c73f5598353003013ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 36/70] fix: a * for a key in a JSON selector copied an
 uninitialised buffer instead of its argument

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index b60ac34..bdcaa26 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1045,7 +1045,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index 8018137..5c59ed5 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -821,7 +821,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From bb86a2789702386d03da0393078041cbf223d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 37/70] fix: the JSON selector type :n only matched signed
 integers

---
 cee-json/release/cee-json.c | 3 ++-
 cee-json/value.c            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index bdcaa26..463a45d 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1006,7 +1006,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && o->t != CEE_JSON_I64 && o->t != CEE_JSON_U64
+            && o->t != CEE_JSON_DOUBLE) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index 5c59ed5..1fe74cf 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -782,7 +782,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && o->t != CEE_JSON_I64 && o->t != CEE_JSON_U64
+            && o->t != CEE_JSON_DOUBLE) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
-- 
2.43.0


From b185ad16f3d1ed78026ac926c6f11c67b7f4ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 38/70] fix: a JSON selector with an index out of range or not
 a number could select another element

---
 cee-json/release/cee-json.c | 7 +++++--
 cee-json/value.c            | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 463a45d..05d71c6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -997,8 +997,11 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
-        if ((o = cee_json_array_get(o,idx)) == NULL)
+        char *end;
+        errno = 0;
+        long idx = strtol(token, &end, 10);
+        if (*end != '\0' || errno == ERANGE || idx != (int)idx) goto notfound;
+        if ((o = cee_json_array_get(o,idx)) == NULL) /* cee_json API index is int. */
           goto notfound;
       } else if (next == JSEL_OBJ) {
         if (o->t != CEE_JSON_OBJECT) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index 1fe74cf..584d14e 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -773,8 +773,11 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         goto notfound;
       } else if (next == JSEL_ARRAY) {
         if (o->t != CEE_JSON_ARRAY) goto notfound;
-        int idx = atoi(token); /* cee_json API index is int. */
-        if ((o = cee_json_array_get(o,idx)) == NULL)
+        char *end;
+        errno = 0;
+        long idx = strtol(token, &end, 10);
+        if (*end != '\0' || errno == ERANGE || idx != (int)idx) goto notfound;
+        if ((o = cee_json_array_get(o,idx)) == NULL) /* cee_json API index is int. */
           goto notfound;
       } else if (next == JSEL_OBJ) {
         if (o->t != CEE_JSON_OBJECT) goto notfound;
-- 
2.43.0


From 56d1164e21ab8b96c5303059308f6e92e457ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 39/70] fix: cee_json_escape_string overwrote half of each \u
 escape and wrote past the destination

---
 cee-json/release/cee-json.c | 35 ++++++++++++++++++++---------------
 cee-json/value.c            | 35 ++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 05d71c6..bbbc679 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1086,32 +1086,37 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
 size_t cee_json_escape_string(const char *s, size_t s_size,
                               char *dest, size_t dest_size,
                               char **next_dest_p, size_t *next_dest_size){
-  int j = 0, c, i;
+  size_t i, j = 0, end = 0; /* bytes needed and bytes written */
   for( i = 0; i < s_size; i++ ){
-    c = s[i];
+    char esc[8] = { '\\' };
+    size_t n = 2;
+    int c = s[i];
     switch( c ){
-    case '"' : dest[j] = '\\', dest[j+1] = '"', j+= 2; break;
-    case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
-    case '\b': dest[j] = '\\', dest[j+1] = 'b', j+= 2; break;
-    case '\f': dest[j] = '\\', dest[j+1] = 'f', j+= 2; break;
-    case '\n': dest[j] = '\\', dest[j+1] = 'n', j+= 2; break;
-    case '\r': dest[j] = '\\', dest[j+1] = 'r', j+= 2; break;
-    case '\t': dest[j] = '\\', dest[j+1] = 't', j+= 2; break;
+    case '"' : esc[1] = '"'; break;
+    case '\\': esc[1] = '\\'; break;
+    case '\b': esc[1] = 'b'; break;
+    case '\f': esc[1] = 'f'; break;
+    case '\n': esc[1] = 'n'; break;
+    case '\r': esc[1] = 'r'; break;
+    case '\t': esc[1] = 't'; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        n = snprintf(esc, sizeof esc, "\\u%04x", c);
       }else{
-        dest[j] = c, j++;
+        esc[0] = c, n = 1;
       }
     }
+    j += n;
+    if( j <= dest_size ){
+      memcpy(dest + end, esc, n);
+      end = j;
+    }
   }
   if( next_dest_size )
-    *next_dest_size = dest_size - j;
+    *next_dest_size = dest_size - end;
 
   if( next_dest_p )
-    *next_dest_p = dest + j;
+    *next_dest_p = dest + end;
 
   return j;
 }
diff --git a/cee-json/value.c b/cee-json/value.c
index 584d14e..7162b51 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -862,32 +862,37 @@ int cee_json_select_as_int(struct cee_json *o, int *x, char *fmt){
 size_t cee_json_escape_string(const char *s,  size_t s_size,
                               char *dest, size_t dest_size,
                               char **next_dest_p, size_t *next_dest_size){
-  int j = 0, c, i;
+  size_t i, j = 0, end = 0; /* bytes needed and bytes written */
   for( i = 0; i < s_size; i++ ){
-    c = s[i];
+    char esc[8] = { '\\' };
+    size_t n = 2;
+    int c = s[i];
     switch( c ){
-    case '"' : dest[j] = '\\', dest[j+1] = '"',  j+= 2; break;
-    case '\\': dest[j] = '\\', dest[j+1] = '\\', j+= 2; break;
-    case '\b': dest[j] = '\\', dest[j+1] = 'b',  j+= 2; break;
-    case '\f': dest[j] = '\\', dest[j+1] = 'f',  j+= 2; break;
-    case '\n': dest[j] = '\\', dest[j+1] = 'n',  j+= 2; break;
-    case '\r': dest[j] = '\\', dest[j+1] = 'r',  j+= 2; break;
-    case '\t': dest[j] = '\\', dest[j+1] = 't',  j+= 2; break;
+    case '"' : esc[1] = '"';  break;
+    case '\\': esc[1] = '\\'; break;
+    case '\b': esc[1] = 'b';  break;
+    case '\f': esc[1] = 'f';  break;
+    case '\n': esc[1] = 'n';  break;
+    case '\r': esc[1] = 'r';  break;
+    case '\t': esc[1] = 't';  break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        n = snprintf(esc, sizeof esc, "\\u%04x", c);
       }else{
-        dest[j] = c, j++;
+        esc[0] = c, n = 1;
       }
     }
+    j += n;
+    if( j <= dest_size ){
+      memcpy(dest + end, esc, n);
+      end = j;
+    }
   }
   if( next_dest_size )
-    *next_dest_size = dest_size - j;
+    *next_dest_size = dest_size - end;
 
   if( next_dest_p )
-    *next_dest_p = dest + j;
+    *next_dest_p = dest + end;
 
   return j;
 }
-- 
2.43.0


From 3c85fe0461c3314748d41bf8c2165cb1acca60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 40/70] fix: loading JSON from a file ignored force_eof

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index bbbc679..9777ba6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -865,7 +865,7 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
diff --git a/cee-json/value.c b/cee-json/value.c
index 7162b51..8495001 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -641,7 +641,7 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
-- 
2.43.0


From f7ce84ef212acd9970a7e405629b155e82710687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 41/70] fix: loading JSON from a file parsed uninitialised
 memory after a short or failed read

---
 cee-json/release/cee-json.c | 22 ++++++++++++++++++----
 cee-json/value.c            | 23 ++++++++++++++++++-----
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 9777ba6..efee533 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -858,10 +858,24 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof,
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  if( fstat(fd, &buf) != 0 ){
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  off_t size = 0;
+  char * b = malloc(buf.st_size + 1);
+  while( size < buf.st_size ){
+    ssize_t n = read(fd, b + size, buf.st_size - size);
+    if( n == 0 )
+      break;
+    if( n > 0 )
+      size += n;
+    else if( errno != EINTR ){
+      fprintf(stderr, "%s\n", strerror(errno));
+      free(b);
+      return NULL;
+    }
+  }
 
   int line = 0;
   struct cee_json * j = NULL;
diff --git a/cee-json/value.c b/cee-json/value.c
index 8495001..1d25b82 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -634,11 +634,24 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
-
+  if( fstat(fd, &buf) != 0 ){
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  off_t size = 0;
+  char * b = malloc(buf.st_size + 1);
+  while( size < buf.st_size ){
+    ssize_t n = read(fd, b + size, buf.st_size - size);
+    if( n == 0 )
+      break;
+    if( n > 0 )
+      size += n;
+    else if( errno != EINTR ){
+      fprintf(stderr, "%s\n", strerror(errno));
+      free(b);
+      return NULL;
+    }
+  }
   int line = 0;
   struct cee_json * j = NULL;
   if( cee_json_parsex(st, b, size, &j, force_eof, &line) ){
-- 
2.43.0


From 706100926088ea027ca892f74d4391f7e14f40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 42/70] fix: loading JSON from a missing file crashed instead
 of returning NULL like any other failure

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/value.c            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index efee533..c70fdf8 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -906,8 +906,8 @@ struct cee_json* cee_json_load_from_file_path(struct cee_state *st,
                                               int *error_at_line){
   FILE *fp = fopen(file_path, "r");
   if( fp == NULL ){
-     fprintf(stderr, "failed to open %s", file_path);
-     cee_segfault();
+     fprintf(stderr, "failed to open %s\n", file_path);
+     return NULL;
   }
   struct cee_json *ret = cee_json_load_from_FILE(st, fp, force_eof, error_at_line);
   fclose(fp);
diff --git a/cee-json/value.c b/cee-json/value.c
index 1d25b82..98984df 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -681,8 +681,8 @@ struct cee_json* cee_json_load_from_file_path(struct cee_state *st,
                                               int *error_at_line){
   FILE *fp = fopen(file_path, "r");
   if( fp == NULL ){
-     fprintf(stderr, "failed to open %s", file_path);
-     cee_segfault();
+     fprintf(stderr, "failed to open %s\n", file_path);
+     return NULL;
   }
   struct cee_json *ret = cee_json_load_from_FILE(st, fp, force_eof, error_at_line);
   fclose(fp);
-- 
2.43.0


From 616b336f6dd346d7798ec912222a2fb6b3df386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 43/70] fix: cee_json_load_from_buffer leaked its state when
 parsing failed

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index c70fdf8..9d2abe5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -921,6 +921,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
diff --git a/cee-json/value.c b/cee-json/value.c
index 98984df..2428af5 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -696,6 +696,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
-- 
2.43.0


From 4d6b251cc1a727552ad68b9d6f2625102ca8fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 44/70] fix: saving JSON gave up in the middle of the file when
 the system split the write

---
 cee-json/release/cee-json.c | 14 ++++++++++----
 cee-json/value.c            | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 9d2abe5..8222773 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -931,10 +931,16 @@ bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, in
   size_t s = cee_json_snprint (st, NULL, 0, j, how);
   char * p = malloc(s+1);
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
-    fprintf(stderr, "%s", strerror(errno));
-    free(p);
-    return false;
+  size_t done = 0;
+  while( done < s ){
+    ssize_t n = write(fd, p + done, s - done);
+    if( n > 0 )
+      done += n;
+    else if( n == 0 || errno != EINTR ){
+      fprintf(stderr, "%s", strerror(errno));
+      free(p);
+      return false;
+    }
   }
   free(p);
   return true;
diff --git a/cee-json/value.c b/cee-json/value.c
index 2428af5..2f11d5b 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -706,10 +706,16 @@ bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, in
   size_t s = cee_json_snprint (st, NULL, 0, j, how);
   char * p = malloc(s+1);
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
-    fprintf(stderr, "%s", strerror(errno));
-    free(p);
-    return false;
+  size_t done = 0;
+  while( done < s ){
+    ssize_t n = write(fd, p + done, s - done);
+    if( n > 0 )
+      done += n;
+    else if( n == 0 || errno != EINTR ){
+      fprintf(stderr, "%s", strerror(errno));
+      free(p);
+      return false;
+    }
   }
   free(p);
   return true;
-- 
2.43.0


From ee6b01a0bf5e26ddbf977df182745d0d417e2679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 45/70] fix: cee_json_merge_all leaked on every failure,
 ignored a failing write and crashed on non-objects

---
 cee-json/cee_json_merge.c   | 47 ++++++++++++++++++------------------
 cee-json/release/cee-json.c | 48 ++++++++++++++++++-------------------
 2 files changed, 48 insertions(+), 47 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..863a540 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -7,42 +7,41 @@
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   static char perror_buf[128] = {0};
 
-  FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
-  if( !f0 ){
-    snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[0]);
-    perror(perror_buf);
-    return 1;
-  }
+  FILE *fn, *f_combined;
   struct cee_state *state = cee_state_mk(100);
-  int line = -1;
-  struct cee_json *j0, *jn;
-  j0 = cee_json_load_from_FILE(state, f0, true, &line);
-  if( j0 == NULL ){
-    fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
-  }
+  int line = -1, ret = 1;
+  struct cee_json *j0 = NULL, *jn;
 
-  for( int i = 1; i < json_file_count; i++ ){
+  for( int i = 0; i < json_file_count; i++ ){
     fn = fopen(json_files[i], "r");
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      goto done;
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
+    fclose(fn);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      goto done;
     }
-    cee_json_merge(j0, jn);
-    fclose(fn);
+    if( !cee_json_to_object(jn) ){
+      fprintf(stderr, "%s is not a json object\n", json_files[i]);
+      goto done;
+    }
+    if( i == 0 )
+      j0 = jn;
+    else
+      cee_json_merge(j0, jn);
   }
+  if( !j0 )
+    goto done;
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -51,9 +50,11 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
-  fclose(f_combined);
-  fclose(f0);
+  if( cee_json_save(state, j0, f_combined, 1) )
+    ret = 0;
+  if( fclose(f_combined) != 0 )
+    ret = 1;
+ done:
   cee_del(state);
-  return 0;
+  return ret;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 8222773..17d737f 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2331,42 +2331,40 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
   static char perror_buf[128] = {0};
 
-  FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
-  if( !f0 ){
-    snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[0]);
-    perror(perror_buf);
-    return 1;
-  }
+  FILE *fn, *f_combined;
   struct cee_state *state = cee_state_mk(100);
-  int line = -1;
-  struct cee_json *j0, *jn;
-  j0 = cee_json_load_from_FILE(state, f0, true, &line);
-  if( j0 == NULL ){
-    fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
-  }
-
-  for( int i = 1; i < json_file_count; i++ ){
+  int line = -1, ret = 1;
+  struct cee_json *j0 = NULL, *jn;
+  for( int i = 0; i < json_file_count; i++ ){
     fn = fopen(json_files[i], "r");
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      goto done;
     }
     line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
+    fclose(fn);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      goto done;
     }
-    cee_json_merge(j0, jn);
-    fclose(fn);
+    if( !cee_json_to_object(jn) ){
+      fprintf(stderr, "%s is not a json object\n", json_files[i]);
+      goto done;
+    }
+    if( i == 0 )
+      j0 = jn;
+    else
+      cee_json_merge(j0, jn);
   }
+  if( !j0 )
+    goto done;
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -2375,11 +2373,13 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
-  fclose(f_combined);
-  fclose(f0);
+  if( cee_json_save(state, j0, f_combined, 1) )
+    ret = 0;
+  if( fclose(f_combined) != 0 )
+    ret = 1;
+ done:
   cee_del(state);
-  return 0;
+  return ret;
 }
 
 #endif
-- 
2.43.0


From 765a05859da2c7d055e0ec4211ed54709b497c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 46/70] fix: pretty printing JSON nested deeper than 127 levels
 counted negative tabs

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/snprint.c          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 17d737f..58b2bd3 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1407,7 +1407,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -1463,7 +1463,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
 
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..338f578 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -68,7 +68,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
   
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
-- 
2.43.0


From b4c5d1d5ac918ef1911c955968e3bc380c255385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 47/70] fix: printing JSON stopped in the middle of documents
 nested as deep as the parser accepts

---
 cee-json/release/cee-json.c | 13 ++++++++++++-
 cee-json/snprint.c          | 14 +++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 58b2bd3..102d1cd 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1571,6 +1571,15 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   offset++;
   *offp = offset;
 }
+/* move the elements of a full stack to one of twice its size */
+static struct cee_stack * grow(struct cee_state * st, struct cee_stack * sp) {
+  uintptr_t n = cee_stack_size(sp), i;
+  struct cee_stack * bigger = cee_stack_mk_e(st, CEE_DP_NOOP, 2 * n);
+  for (i = n; i > 0; i--)
+    cee_stack_push(bigger, cee_stack_top(sp, i - 1));
+  cee_del(sp);
+  return bigger;
+}
 
 /*
  * compute how many bytes are needed to serialize cee_json as a string
@@ -1586,7 +1595,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
-  while (!cee_stack_empty(sp) && !cee_stack_full(sp)) {
+  while (!cee_stack_empty(sp)) {
+    if (cee_stack_full(sp))
+      sp = grow(st, sp);
     cur = cee_stack_top(sp, 0);
     cur_json = (struct cee_json *)(cur->_[1]);
     ccnt = (struct counter *)(cur->_[0]);
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 338f578..b09f572 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -177,6 +177,16 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   *offp = offset;
 }
 
+/* move the elements of a full stack to one of twice its size */
+static struct cee_stack * grow(struct cee_state * st, struct cee_stack * sp) {
+  uintptr_t n = cee_stack_size(sp), i;
+  struct cee_stack * bigger = cee_stack_mk_e(st, CEE_DP_NOOP, 2 * n);
+  for (i = n; i > 0; i--)
+    cee_stack_push(bigger, cee_stack_top(sp, i - 1));
+  cee_del(sp);
+  return bigger;
+}
+
 /*
  * compute how many bytes are needed to serialize cee_json as a string
  */
@@ -191,7 +201,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-  while (!cee_stack_empty(sp) && !cee_stack_full(sp)) {
+  while (!cee_stack_empty(sp)) {
+    if (cee_stack_full(sp))
+      sp = grow(st, sp);
     cur = cee_stack_top(sp, 0);
     cur_json = (struct cee_json *)(cur->_[1]);
     ccnt = (struct counter *)(cur->_[0]);
-- 
2.43.0


From 998e839a6cad07b584598e61e7a41b4d04008734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 48/70] fix: printing JSON ignored the size of the buffer, and
 cee_json_asprint's was one byte short

---
 cee-json/release/cee-json.c | 170 +++++++++++++++--------------------
 cee-json/snprint.c          | 172 +++++++++++++++---------------------
 2 files changed, 140 insertions(+), 202 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 102d1cd..9f52ff7 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1457,77 +1457,58 @@ static struct counter * push(struct cee_state * st, uintptr_t tabs, bool more_si
   return p;
 }
 
-static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
-                 enum cee_json_fmt f) {
+/* the output: as much of the text as fits the buffer, and the length of all of it */
+struct output {
+  char * buf;
+  size_t size;
+  uintptr_t offset;
+};
+static void put (struct output * o, const char * s, size_t n) {
+  if (o->buf && o->offset < o->size)
+    memcpy(o->buf + o->offset, s, n < o->size - o->offset ? n : o->size - o->offset);
+  o->offset += n;
+}
+static void pad (struct output * o, struct counter * cnt, enum cee_json_fmt f) {
   if (!f) return;
 
-  uintptr_t offset = *offp;
-  if (buf) {
-    uintptr_t i;
-    for (i = 0; i < cnt->tabs; i++)
-      buf[offset + i] = '\t';
-  }
-  offset += cnt->tabs;
-  *offp = offset;
-  return;
+  uintptr_t i;
+  for (i = 0; i < cnt->tabs; i++)
+    put(o, "\t", 1);
 }
 
-static void delimiter (uintptr_t * offp, char * buf, enum cee_json_fmt f,
+static void delimiter (struct output * o, enum cee_json_fmt f,
                        struct counter * cnt, char c)
 {
-  uintptr_t offset = *offp;
   if (!f) {
-    if (buf) buf[offset] = c;
-    offset ++; /*  only count one */
-    *offp = offset;
+    put(o, &c, 1); /*  only count one */
     return;
   }
 
   switch (c) {
     case '[':
     case '{':
-      pad(offp, buf, cnt, f);
-      if (buf) {
-        buf[offset] = c;
-        buf[offset+1] = '\n';
-      }
-      offset +=2;
+      put(o, &c, 1);
+      put(o, "\n", 1);
       break;
     case ']':
     case '}':
-      if (buf) buf[offset] = '\n';
-      offset ++;
-      pad(&offset, buf, cnt, f);
-      if (buf) buf[offset] = c;
-      offset ++;
-      if (buf) buf[offset] = '\n';
-      offset ++;
+      put(o, "\n", 1);
+      pad(o, cnt, f);
+      put(o, &c, 1);
+      put(o, "\n", 1);
       break;
     case ':':
-      if (buf) {
-        buf[offset] = ' ';
-        buf[offset+1] = ':';
-        buf[offset+2] = '\t';
-      }
-      offset +=3;
+      put(o, " :\t", 3);
       break;
     case ',':
-      if (buf) {
-        buf[offset] = ',';
-        buf[offset+1] = '\n';
-      }
-      offset +=2;
+      put(o, ",\n", 2);
       break;
   }
-  *offp = offset;
 }
 
 
-static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
-  uintptr_t offset = *offp;
-
-  if (out) out[offset] = '"';
-  offset ++;
+static void str_append(struct output * o, char *begin, size_t len) {
+  put(o, "\"", 1);
 
   char *i,*last;
   char buf[8] = "\\u00";
@@ -1553,11 +1534,8 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
     };
     if(addon) {
       /* a.append(last,i-last); */
-      if (out) memcpy(out+offset, last, i-last);
-      offset += i-last;
-
-      if (out) memcpy(out+offset, addon, strlen(addon));
-      offset += strlen(addon);
+      put(o, last, i-last);
+      put(o, addon, strlen(addon));
       i++;
       last = i;
     }
@@ -1565,11 +1543,8 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
       i++;
     }
   }
-  if (out) memcpy(out+offset, last, i-last);
-  offset += i-last;
-  if (out) out[offset] = '"';
-  offset++;
-  *offp = offset;
+  put(o, last, i-last);
+  put(o, "\"", 1);
 }
 /* move the elements of a full stack to one of twice its size */
 static struct cee_stack * grow(struct cee_state * st, struct cee_stack * sp) {
@@ -1590,11 +1565,12 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct cee_json * cur_json;
   struct counter * ccnt;
   uintptr_t incr = 0;
+  char num[32]; /* fits any number */
 
   struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
   push (st, 0, false, sp, j);
 
-  uintptr_t offset = 0;
+  struct output out = { buf, size, 0 };
   while (!cee_stack_empty(sp)) {
     if (cee_stack_full(sp))
       sp = grow(st, sp);
@@ -1605,50 +1581,44 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
     switch(cur_json->t) {
       case CEE_JSON_NULL:
         {
-          pad(&offset, buf, ccnt, f);
-          if (buf)
-            memcpy(buf + offset, "null", 4);
-          offset += 4;
+          pad(&out, ccnt, f);
+          put(&out, "null", 4);
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
       case CEE_JSON_BOOLEAN:
         {
-          pad(&offset, buf, ccnt, f);
+          pad(&out, ccnt, f);
           char * s = "false";
           bool b;
           cee_json_to_boolx(cur_json, &b);
           if (b)
             s = "true";
-          if (buf)
-            memcpy(buf + offset, s, strlen(s));
-          offset += strlen(s);
+          put(&out, s, strlen(s));
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
       case CEE_JSON_UNDEFINED:
         {
-          pad(&offset, buf, ccnt, f);
-          if (buf)
-            memcpy(buf + offset, "undefined", 9);
-          offset += 9;
+          pad(&out, ccnt, f);
+          put(&out, "undefined", 9);
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
       case CEE_JSON_STRING:
         {
           char *str = (char *)cee_json_to_str(cur_json);
-          pad(&offset, buf, ccnt, f);
+          pad(&out, ccnt, f);
           /* TODO: escape str */
-          str_append(buf, &offset, str, strlen(str));
+          str_append(&out, str, strlen(str));
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -1657,10 +1627,10 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
           char *str;
           size_t slen;
           cee_json_to_strn(cur_json, &str, &slen);
-          pad(&offset, buf, ccnt, f);
-          str_append(buf, &offset, str, slen);
+          pad(&out, ccnt, f);
+          str_append(&out, str, slen);
           if( ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -1669,10 +1639,10 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
           /* TODO: encode as base64 */
           struct cee_block *blob = cee_json_to_blob(cur_json);
           char *str = (char*)cee_str_mk(st, "blob:%d bytes", cee_block_size(blob));
-          pad(&offset, buf, ccnt, f);
-          str_append(buf, &offset, str, strlen(str));
+          pad(&out, ccnt, f);
+          str_append(&out, str, strlen(str));
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -1680,13 +1650,11 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
-          pad(&offset, buf, ccnt, f);
-          incr = cee_boxed_snprint (NULL, 0, cee_json_to_boxed(cur_json));
-          if (buf)
-            cee_boxed_snprint (buf+offset, incr+1/*\0*/, cee_json_to_boxed(cur_json));
-          offset+=incr;
+          pad(&out, ccnt, f);
+          incr = cee_boxed_snprint (num, sizeof num, cee_json_to_boxed(cur_json));
+          put(&out, num, incr);
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -1694,7 +1662,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
         {
           uintptr_t i = ccnt->next;
           if (i == 0)
-            delimiter(&offset, buf, f, ccnt, '[');
+            delimiter(&out, f, ccnt, '[');
 
           uintptr_t n = cee_list_size(ccnt->array);
           if (i < n) {
@@ -1706,9 +1674,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
                   (struct cee_json *)(ccnt->array->a[i]));
           }
           else {
-            delimiter(&offset, buf, f, ccnt, ']');
+            delimiter(&out, f, ccnt, ']');
             if (ccnt->more_siblings)
-              delimiter(&offset, buf, f, ccnt, ',');
+              delimiter(&out, f, ccnt, ',');
             cee_del(cee_stack_pop(sp));
           }
         }
@@ -1717,7 +1685,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
         {
           uintptr_t i = ccnt->next;
           if (i == 0)
-            delimiter(&offset, buf, f, ccnt, '{');
+            delimiter(&out, f, ccnt, '{');
 
           uintptr_t n = cee_list_size(ccnt->array);
           if (i < n) {
@@ -1729,15 +1697,15 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
             char * key = (char *)ccnt->array->a[i];
             struct cee_json * j1 = cee_map_find(ccnt->object, ccnt->array->a[i]);
             unsigned klen = strlen(key);
-            pad(&offset, buf, ccnt, f);
-            str_append(buf, &offset, key, klen);
-            delimiter(&offset, buf, f, ccnt, ':');
+            pad(&out, ccnt, f);
+            str_append(&out, key, klen);
+            delimiter(&out, f, ccnt, ':');
             push(st, ccnt->tabs + 1, more_siblings, sp, j1);
           }
           else {
-            delimiter(&offset, buf, f, ccnt, '}');
+            delimiter(&out, f, ccnt, '}');
             if (ccnt->more_siblings)
-              delimiter(&offset, buf, f, ccnt, ',');
+              delimiter(&out, f, ccnt, ',');
             cee_del(ccnt->array);
             cee_del(cee_stack_pop(sp));
           }
@@ -1748,9 +1716,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
     }
   }
   cee_del (sp);
-  if (buf)
-    buf[offset] = '\0';
-  return offset;
+  if (buf && size)
+    buf[out.offset < size ? out.offset : size - 1] = '\0';
+  return out.offset;
 }
 
 
@@ -1762,10 +1730,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1, j, f);
 }
 
 
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index b09f572..2adea01 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -62,77 +62,60 @@ static struct counter * push(struct cee_state * st, uintptr_t tabs, bool more_si
   return p;
 }
 
-static void pad (uintptr_t * offp, char * buf, struct counter * cnt, 
-                 enum cee_json_fmt f) {
+/* the output: as much of the text as fits the buffer, and the length of all of it */
+struct output {
+  char * buf;
+  size_t size;
+  uintptr_t offset;
+};
+
+static void put (struct output * o, const char * s, size_t n) {
+  if (o->buf && o->offset < o->size)
+    memcpy(o->buf + o->offset, s, n < o->size - o->offset ? n : o->size - o->offset);
+  o->offset += n;
+}
+
+static void pad (struct output * o, struct counter * cnt, enum cee_json_fmt f) {
   if (!f) return;
   
-  uintptr_t offset = *offp;
-  if (buf) {
-    uintptr_t i;
-    for (i = 0; i < cnt->tabs; i++)
-      buf[offset + i] = '\t';
-  }
-  offset += cnt->tabs;
-  *offp = offset;
-  return;
+  uintptr_t i;
+  for (i = 0; i < cnt->tabs; i++)
+    put(o, "\t", 1);
 }
 
-static void delimiter (uintptr_t * offp, char * buf, enum cee_json_fmt f, 
+static void delimiter (struct output * o, enum cee_json_fmt f, 
                        struct counter * cnt, char c) 
 {
-  uintptr_t offset = *offp;
   if (!f) {
-    if (buf) buf[offset] = c;
-    offset ++; /*  only count one */
-    *offp = offset;
+    put(o, &c, 1); /*  only count one */
     return;
   }
   
   switch (c) {
     case '[':
     case '{':
-      pad(offp, buf, cnt, f);
-      if (buf) {
-        buf[offset] = c;
-        buf[offset+1] = '\n';
-      }
-      offset +=2;
+      put(o, &c, 1);
+      put(o, "\n", 1);
       break;
     case ']':
     case '}':
-      if (buf) buf[offset] = '\n';
-      offset ++;
-      pad(&offset, buf, cnt, f);
-      if (buf) buf[offset] = c;
-      offset ++;
-      if (buf) buf[offset] = '\n';
-      offset ++;
+      put(o, "\n", 1);
+      pad(o, cnt, f);
+      put(o, &c, 1);
+      put(o, "\n", 1);
       break;
     case ':':
-      if (buf) {
-        buf[offset] = ' ';
-        buf[offset+1] = ':';
-        buf[offset+2] = '\t';
-      }
-      offset +=3;
+      put(o, " :\t", 3);
       break;
     case ',':
-      if (buf) {
-        buf[offset] = ',';
-        buf[offset+1] = '\n';
-      }
-      offset +=2;
+      put(o, ",\n", 2);
       break;
   }
-  *offp = offset;
 }
 
 
-static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
-  uintptr_t offset = *offp;
-  
-  if (out) out[offset] = '"';
-  offset ++;
+static void str_append(struct output * o, char *begin, size_t len) {
+  put(o, "\"", 1);
   
   char *i,*last;
   char buf[8] = "\\u00";
@@ -158,11 +141,8 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
     };
     if(addon) {
       /* a.append(last,i-last); */
-      if (out) memcpy(out+offset, last, i-last);
-      offset += i-last;
-      
-      if (out) memcpy(out+offset, addon, strlen(addon));
-      offset += strlen(addon);
+      put(o, last, i-last);
+      put(o, addon, strlen(addon));
       i++;
       last = i;
     }
@@ -170,11 +150,8 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
       i++;
     }
   }
-  if (out) memcpy(out+offset, last, i-last);
-  offset += i-last;
-  if (out) out[offset] = '"';
-  offset++;
-  *offp = offset;
+  put(o, last, i-last);
+  put(o, "\"", 1);
 }
 
 /* move the elements of a full stack to one of twice its size */
@@ -196,11 +173,12 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct cee_json * cur_json;
   struct counter * ccnt;
   uintptr_t incr = 0;
+  char num[32]; /* fits any number */
   
   struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
   push (st, 0, false, sp, j);
   
-  uintptr_t offset = 0;
+  struct output out = { buf, size, 0 };
   while (!cee_stack_empty(sp)) {
     if (cee_stack_full(sp))
       sp = grow(st, sp);
@@ -211,50 +189,44 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
     switch(cur_json->t) {
       case CEE_JSON_NULL: 
         {
-          pad(&offset, buf, ccnt, f);
-          if (buf)
-            memcpy(buf + offset, "null", 4);
-          offset += 4;
+          pad(&out, ccnt, f);
+          put(&out, "null", 4);
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
       case CEE_JSON_BOOLEAN: 
         {
-          pad(&offset, buf, ccnt, f);
+          pad(&out, ccnt, f);
           char * s = "false";
           bool b;
           cee_json_to_boolx(cur_json, &b);
           if (b)
             s = "true";
-          if (buf) 
-            memcpy(buf + offset, s, strlen(s));
-          offset += strlen(s);
+          put(&out, s, strlen(s));
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
       case CEE_JSON_UNDEFINED:
         {
-          pad(&offset, buf, ccnt, f);
-          if (buf)
-            memcpy(buf + offset, "undefined", 9);
-          offset += 9;
+          pad(&out, ccnt, f);
+          put(&out, "undefined", 9);
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
       case CEE_JSON_STRING:
         {
           char *str = (char *)cee_json_to_str(cur_json);
-          pad(&offset, buf, ccnt, f);
+          pad(&out, ccnt, f);
           /* TODO: escape str */
-          str_append(buf, &offset, str, strlen(str));
+          str_append(&out, str, strlen(str));
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -263,10 +235,10 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
           char *str;
           size_t slen;
           cee_json_to_strn(cur_json, &str, &slen);
-          pad(&offset, buf, ccnt, f);
-          str_append(buf, &offset, str, slen);
+          pad(&out, ccnt, f);
+          str_append(&out, str, slen);
           if( ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -275,10 +247,10 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
           /* TODO: encode as base64 */
           struct cee_block *blob = cee_json_to_blob(cur_json);
           char *str = (char*)cee_str_mk(st, "blob:%d bytes", cee_block_size(blob));
-          pad(&offset, buf, ccnt, f);
-          str_append(buf, &offset, str, strlen(str));
+          pad(&out, ccnt, f);
+          str_append(&out, str, strlen(str));
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -286,13 +258,11 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
-          pad(&offset, buf, ccnt, f);
-          incr = cee_boxed_snprint (NULL, 0, cee_json_to_boxed(cur_json));
-          if (buf)
-            cee_boxed_snprint (buf+offset, incr+1/*\0*/, cee_json_to_boxed(cur_json));
-          offset+=incr;
+          pad(&out, ccnt, f);
+          incr = cee_boxed_snprint (num, sizeof num, cee_json_to_boxed(cur_json));
+          put(&out, num, incr);
           if (ccnt->more_siblings)
-            delimiter(&offset, buf, f, ccnt, ',');
+            delimiter(&out, f, ccnt, ',');
           cee_del(cee_stack_pop(sp));
         }
         break;
@@ -300,7 +270,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
         { 
           uintptr_t i = ccnt->next;
           if (i == 0) 
-            delimiter(&offset, buf, f, ccnt, '[');
+            delimiter(&out, f, ccnt, '[');
           
           uintptr_t n = cee_list_size(ccnt->array);
           if (i < n) {
@@ -312,9 +282,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
                   (struct cee_json *)(ccnt->array->a[i]));
           } 
           else {
-            delimiter(&offset, buf, f, ccnt, ']');
+            delimiter(&out, f, ccnt, ']');
             if (ccnt->more_siblings)
-              delimiter(&offset, buf, f, ccnt, ',');
+              delimiter(&out, f, ccnt, ',');
             cee_del(cee_stack_pop(sp));
           }
         }
@@ -323,7 +293,7 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
         {
           uintptr_t i = ccnt->next;
           if (i == 0)
-            delimiter(&offset, buf, f, ccnt, '{');
+            delimiter(&out, f, ccnt, '{');
           
           uintptr_t n = cee_list_size(ccnt->array);
           if (i < n) {
@@ -335,15 +305,15 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
             char * key = (char *)ccnt->array->a[i];
             struct cee_json * j1 = cee_map_find(ccnt->object, ccnt->array->a[i]);
             unsigned klen = strlen(key);
-            pad(&offset, buf, ccnt, f);
-            str_append(buf, &offset, key, klen);
-            delimiter(&offset, buf, f, ccnt, ':');
+            pad(&out, ccnt, f);
+            str_append(&out, key, klen);
+            delimiter(&out, f, ccnt, ':');
             push(st, ccnt->tabs + 1, more_siblings, sp, j1);
           }
           else {
-            delimiter(&offset, buf, f, ccnt, '}');
+            delimiter(&out, f, ccnt, '}');
             if (ccnt->more_siblings)
-              delimiter(&offset, buf, f, ccnt, ',');
+              delimiter(&out, f, ccnt, ',');
             cee_del(ccnt->array);
             cee_del(cee_stack_pop(sp));
           }
@@ -354,9 +324,9 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
     }
   }
   cee_del (sp);
-  if (buf)
-    buf[offset] = '\0';
-  return offset;
+  if (buf && size)
+    buf[out.offset < size ? out.offset : size - 1] = '\0';
+  return out.offset;
 }
 
 
@@ -368,10 +338,10 @@ cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct
                  enum cee_json_fmt f)
 {
   size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
-  char *buf = cee_block_mk_nonzero(st, buf_size);
+  char *buf = cee_block_mk_nonzero(st, buf_size + 1);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-  return cee_json_snprint(st, buf, buf_size, j, f);
+  return cee_json_snprint(st, buf, buf_size + 1, j, f);
 }
 
 
-- 
2.43.0


From 4f62125ec72c03dbbd739f4be7104d8bb8c40b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 49/70] fix: printing JSON doubles lost digits, and turned
 integral ones into integers

---
 cee-json/release/cee-json.c | 21 +++++++++++++++++++++
 cee-json/snprint.c          | 22 ++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 9f52ff7..d07e678 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1546,6 +1546,18 @@ static void str_append(struct output * o, char *begin, size_t len) {
   put(o, last, i-last);
   put(o, "\"", 1);
 }
+/* the shortest text that reads back as the same double, and as a double */
+static size_t double_text(char * out, size_t size, double d) {
+  int prec;
+  for (prec = 6; prec <= 17; prec++) {
+    snprintf(out, size, "%.*g", prec, d);
+    if (strtod(out, NULL) == d)
+      break;
+  }
+  if (out[strspn(out, "-0123456789")] == '\0')
+    strcat(out, ".0");
+  return strlen(out);
+}
 /* move the elements of a full stack to one of twice its size */
 static struct cee_stack * grow(struct cee_state * st, struct cee_stack * sp) {
   uintptr_t n = cee_stack_size(sp), i;
@@ -1647,6 +1659,15 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
         }
         break;
       case CEE_JSON_DOUBLE:
+        {
+          pad(&out, ccnt, f);
+          incr = double_text(num, sizeof num, cee_boxed_to_double(cee_json_to_boxed(cur_json)));
+          put(&out, num, incr);
+          if (ccnt->more_siblings)
+            delimiter(&out, f, ccnt, ',');
+          cee_del(cee_stack_pop(sp));
+        }
+        break;
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 2adea01..6a97fc7 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -154,6 +154,19 @@ static void str_append(struct output * o, char *begin, size_t len) {
   put(o, "\"", 1);
 }
 
+/* the shortest text that reads back as the same double, and as a double */
+static size_t double_text(char * out, size_t size, double d) {
+  int prec;
+  for (prec = 6; prec <= 17; prec++) {
+    snprintf(out, size, "%.*g", prec, d);
+    if (strtod(out, NULL) == d)
+      break;
+  }
+  if (out[strspn(out, "-0123456789")] == '\0')
+    strcat(out, ".0");
+  return strlen(out);
+}
+
 /* move the elements of a full stack to one of twice its size */
 static struct cee_stack * grow(struct cee_state * st, struct cee_stack * sp) {
   uintptr_t n = cee_stack_size(sp), i;
@@ -255,6 +268,15 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
         }
         break;
       case CEE_JSON_DOUBLE:
+        {
+          pad(&out, ccnt, f);
+          incr = double_text(num, sizeof num, cee_boxed_to_double(cee_json_to_boxed(cur_json)));
+          put(&out, num, incr);
+          if (ccnt->more_siblings)
+            delimiter(&out, f, ccnt, ',');
+          cee_del(cee_stack_pop(sp));
+        }
+        break;
       case CEE_JSON_I64:
       case CEE_JSON_U64:
         {
-- 
2.43.0


From ca57c21f7cc167984e07f576763f97a4aabf3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 50/70] fix: cee_json_select read past the end of a selector
 ending in an empty step and misread an empty key argument

---
 cee-json/release/cee-json.c | 9 ++++++---
 cee-json/value.c            | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d07e678..80378b6 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1004,15 +1004,16 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
   } next = JSEL_INVALID; /* Type of the next selector. */
   char token[JSEL_MAX_TOKEN+1]; /* Current token. */
   int tlen; /* Current length of the token. */
+  int tset; /* The token has begun (it may be empty). */
   va_list ap;
 
   va_start(ap,fmt);
   const char *p = fmt;
-  tlen = 0;
+  tlen = tset = 0;
   while(1) {
     /* Our four special chars (plus the end of the string) signal the
      * end of the previous token and the start of the next one. */
-    if (tlen && (*p == '\0' || strchr(".[]:",*p))) {
+    if (tset && (*p == '\0' || strchr(".[]:",*p))) {
       token[tlen] = '\0';
       if (next == JSEL_INVALID) {
         goto notfound;
@@ -1042,6 +1043,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* the token is missing */
+      tset = 1;
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
@@ -1083,7 +1086,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
     else if (*p == '[') next = JSEL_ARRAY;
     else if (*p == ':') next = JSEL_TYPECHECK;
     else goto notfound;
-    tlen = 0; /* A new token starts. */
+    tlen = tset = 0; /* A new token starts. */
     p++; /* Token starts at next character. */
   }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index 2f11d5b..6d6ed62 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -779,15 +779,16 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
   } next = JSEL_INVALID;          /* Type of the next selector. */
   char token[JSEL_MAX_TOKEN+1];   /* Current token. */
   int tlen;                       /* Current length of the token. */
+  int tset;                       /* The token has begun (it may be empty). */
   va_list ap;
   
   va_start(ap,fmt);
   const char *p = fmt;
-  tlen = 0;
+  tlen = tset = 0;
   while(1) {
     /* Our four special chars (plus the end of the string) signal the
      * end of the previous token and the start of the next one. */
-    if (tlen && (*p == '\0' || strchr(".[]:",*p))) {
+    if (tset && (*p == '\0' || strchr(".[]:",*p))) {
       token[tlen] = '\0';
       if (next == JSEL_INVALID) {
         goto notfound;
@@ -817,6 +818,8 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
        * the above check for JSEL_NEXT_INVALID prevents us from
        * accumulating at the start of the fmt string if no token was
        * yet selected. */
+      if (*p == '\0') goto notfound; /* the token is missing */
+      tset = 1;
       if (*p != '*') {
         token[tlen] = *p++;
         tlen++;
@@ -858,7 +861,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
     else if (*p == '[') next = JSEL_ARRAY;
     else if (*p == ':') next = JSEL_TYPECHECK;
     else goto notfound;
-    tlen = 0; /* A new token starts. */
+    tlen = tset = 0; /* A new token starts. */
     p++; /* Token starts at next character. */
   }
 
-- 
2.43.0


From 706f4e9dac8b35c7ccd52e0e8309555c1b255d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 51/70] fix: SQLite statements were not finalised when a
 parameter was unbound or a select failed, and a failing step looped

---
 sqlite3/cee-sqlite3.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..1598042 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,8 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          if( !sql_stmt_pp )
+            sqlite3_finalize(sql_stmt);
           return SQLITE_ERROR;
         }
       }
@@ -419,21 +421,21 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
-  if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
-    if( status ){
-      accept_result(state, status, &result);
-      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-    }
-    return rc;
-  }
-  while( rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
     if( f(cls, state, info, stmt) ){
       sqlite3_finalize(stmt);
       return SQLITE_DONE;
     }
     rc = sqlite3_step(stmt);
   }
+  if( rc != SQLITE_DONE && status ){
+    accept_result(state, status, &result);
+    /* an array that was given cannot hold an error, rc tells it */
+    if( cee_json_to_object(*status) ){
+      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
+      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+    }
+  }
   sqlite3_finalize(stmt);
   return rc;
 }
-- 
2.43.0


From 8afcad4ad32e625eae8b771b18730a74820ee109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 52/70] fix: a SQLite value that could not be bound was
 silently sent as null

---
 sqlite3/cee-sqlite3.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 1598042..f25bb32 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -140,7 +140,7 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
       int total_parameters = sqlite3_bind_parameter_count(sql_stmt);
       char *bound = alloca(total_parameters);
       memset(bound, 0, total_parameters);
-      for( int i = 0; info[i].var_name; i++ ){
+      for( int i = 0; rc == SQLITE_OK && info[i].var_name; i++ ){
         idx = sqlite3_bind_parameter_index(sql_stmt, info[i].var_name);
         if( idx <= 0 )
           continue;
@@ -156,16 +156,16 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
           case CEE_SQLITE3_UNDEF:
             cee_segfault();
           case CEE_SQLITE3_INT:
-            sqlite3_bind_int(sql_stmt, idx, 0);
+            rc = sqlite3_bind_int(sql_stmt, idx, 0);
             break;
           case CEE_SQLITE3_INT64:
-            sqlite3_bind_int64(sql_stmt, idx, 0);
+            rc = sqlite3_bind_int64(sql_stmt, idx, 0);
             break;
           case CEE_SQLITE3_TEXT:
-            sqlite3_bind_text(sql_stmt, idx, "", 0, SQLITE_STATIC);
+            rc = sqlite3_bind_text(sql_stmt, idx, "", 0, SQLITE_STATIC);
             break;
           case CEE_SQLITE3_BLOB:
-            sqlite3_bind_blob(sql_stmt, idx, "", 0, SQLITE_STATIC);
+            rc = sqlite3_bind_blob(sql_stmt, idx, "", 0, SQLITE_STATIC);
             break;
           default:
             cee_segfault();
@@ -176,7 +176,7 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
           continue;
 
         if( data_p->is_null && !info[i].not_null ){
-          sqlite3_bind_null(sql_stmt, idx);
+          rc = sqlite3_bind_null(sql_stmt, idx);
           continue;
         }
 
@@ -184,24 +184,30 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         case CEE_SQLITE3_UNDEF:
           cee_segfault();
         case CEE_SQLITE3_INT:
-          sqlite3_bind_int(sql_stmt, idx, data_p->i);
+          rc = sqlite3_bind_int(sql_stmt, idx, data_p->i);
           break;
         case CEE_SQLITE3_INT64:
-          sqlite3_bind_int64(sql_stmt, idx, data_p->i64);
+          rc = sqlite3_bind_int64(sql_stmt, idx, data_p->i64);
           break;
         case CEE_SQLITE3_TEXT:
-          sqlite3_bind_text(sql_stmt, idx, data_p->value,
+          rc = sqlite3_bind_text(sql_stmt, idx, data_p->value,
                             data_p->size == 0 ? -1 : data_p->size,
                             SQLITE_STATIC);
           break;
         case CEE_SQLITE3_BLOB:
-          sqlite3_bind_blob(sql_stmt, idx, data_p->value,
+          rc = sqlite3_bind_blob(sql_stmt, idx, data_p->value,
                             data_p->size, SQLITE_STATIC);
           break;
         default:
           cee_segfault();
         }
       }
+      if( rc != SQLITE_OK ){
+        cee_json_set_error(ret, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+        if( !sql_stmt_pp )
+          sqlite3_finalize(sql_stmt);
+        return rc;
+      }
       for( int i = 0; i < total_parameters; i++ ){
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
-- 
2.43.0


From d7ec9039cd2ed9288fff1e156085797501640d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 53/70] fix: SQLite operations without a status crashed, and a
 failed delete reported the count of an earlier statement

---
 sqlite3/cee-sqlite3.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index f25bb32..71f68c9 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -325,7 +325,9 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
 		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
+  else if( result == NULL )
+    ; /* nobody wants to know */
+  else if( key )
     cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
   else
     cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
@@ -897,7 +899,8 @@ int cee_sqlite3_insert_op(struct cee_sqlite3 *cs,
                                       op->stmts,
                                       status,
                                       cee_sqlite3_insert_wrapper);
-  cee_json_object_rename(*status, "last_insert_rowid", "id");
+  if( status && *status )
+    cee_json_object_rename(*status, "last_insert_rowid", "id");
   return rc;
 }
 
-- 
2.43.0


From 16368bb623d8bcc63590065b2dac69c0ee9f0794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 54/70] fix: SQLite row ids were cut to 32 bits

---
 sqlite3/cee-sqlite3.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 71f68c9..160f642 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -272,7 +272,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -296,7 +296,7 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -600,7 +600,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From c2f948d52e8ae022129d6997818424728261fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 55/70] fix: cee_sqlite3_update_or_insert inserted when the
 lookup failed

---
 sqlite3/cee-sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 160f642..1cb2966 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -265,6 +265,8 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
     rc = cee_sqlite3_bind_run_sql(cs, info, data, update, NULL, status);
     if( rc != SQLITE_DONE )
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, update, sqlite3_errmsg(db));
+  }else if( rc != SQLITE_DONE ){
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   }else{
     char *insert = stmts->insert_dynamic ? stmts->insert_stmt_x : stmts->insert_stmt;
     rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
-- 
2.43.0


From ae88ff804907a4417a4bc9a9668e634bd4d31897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 56/70] fix: cee_sqlite3_select_as lost its key,
 cee_sqlite3_select1_as stored a missing row, both dropped the status on
 failure

---
 sqlite3/cee-sqlite3.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 1cb2966..ecc27d0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -983,19 +983,20 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *one = NULL;
   int ret = cee_sqlite3_select1(cs, info, data, sql, &one);
 
-  if( cee_json_select(one, ".error") && status ){
-    *status = one;
+  struct cee_json *error = cee_json_select(one, ".error");
+
+  accept_result(cs->state, status, &result);
+  if( error ){
+    cee_json_object_append(result, "error", error);
     return ret;
   }
 
-  accept_result(cs->state, status, &result);
-  if( status ){
+  if( status && one ){
     struct cee_json *old = cee_json_object_get(*status, key);
     if( old )
       cee_json_merge(old, one);
     else
-      old = one;
-    cee_json_object_set(*status, key, old);
+      cee_json_object_set(*status, key, one);
   }
   return ret;
 }
@@ -1011,20 +1012,13 @@ cee_sqlite3_select_as(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *array = NULL;
   int ret = cee_sqlite3_select(cs, info, data, sql, &array);
 
-  if( cee_json_select(array, ".error") && status ){
-    if( *status )
-      cee_json_object_append(*status, "error", cee_json_select(array, ".error"));
-    else
-      *status = array;
-    return ret;
-  }
+  struct cee_json *error = cee_json_select(array, ".error");
 
-  if( status ){
-    if( *status )
-      cee_json_object_append(*status, key, array);
-    else
-      *status = array;
-  }
+  accept_result(cs->state, status, &result);
+  if( error )
+    cee_json_object_append(result, "error", error);
+  else
+    cee_json_object_append(result, key, array);
   return ret;
 }
 
-- 
2.43.0


From 9ffcdb26101bdc3f83d4285937eb72203cc20d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 57/70] fix: cee_json_to_bind_info gave every column the first
 key, and crashed on integers beyond int

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index ecc27d0..dc4e1aa 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1037,9 +1037,9 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     if( info[i].var_name ) continue;
     switch( val->t ){
     case CEE_JSON_I64:
-      if ( cee_json_to_intx(val, &info[i].data.i))
+      if ( cee_json_to_i64x(val, &info[i].data.i64))
         cee_segfault();
-      info[i].type = CEE_SQLITE3_INT;
+      info[i].type = CEE_SQLITE3_INT64;
       break;
     case CEE_JSON_STRING:
       info[i].data.value = cee_json_to_str(val)->_;
@@ -1054,6 +1054,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break;
   }
   return 0;
 }
-- 
2.43.0


From 9fe3f5920ee016c0846ba7641b7ed4f88ca1616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 58/70] fix: inserting a JSON object of 50 or more keys
 overflowed the stack

---
 sqlite3/cee-sqlite3.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index dc4e1aa..068ffa6 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1110,7 +1110,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info;
   int idx;
 };
 
@@ -1167,6 +1167,9 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   struct insert_columns_values one_ctx = {0};
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
+  /* one for each key, and the one that ends them */
+  one_ctx.info = cee_block_mk(state, (cee_map_size(cee_json_to_object(one)) + 1)
+                                     * sizeof(struct cee_sqlite3_bind_info));
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
   size = snprintf(NULL, 0, "insert into %s (%s) values (%s);",
                   p->table_name,
-- 
2.43.0


From 571c6a5f585bfa8cff6c1bbe4dd83929d3ed8dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 59/70] fix: cee_sqlite3_bind_data_from_json crashed on a blob
 when errors are not wanted

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 068ffa6..dea3ada 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -690,7 +690,8 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
                                    info[i].col_name);
         return 1;
       }
-- 
2.43.0


From db281a1cf77f8938cb2a55cf84f95f12b896d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 60/70] fix: a SQLite database that cannot be opened crashed
 without a handle and was left open

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index dea3ada..496eba0 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -12,7 +12,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From 65986fa9a5cd10fcebfec2a813f960713bf4e49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 61/70] fix: cee_sqlite3_next_int cut its condition at 127
 characters and overflowed at the largest int

---
 sqlite3/cee-sqlite3.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 496eba0..a3f6491 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -3,6 +3,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <alloca.h>
+#include <limits.h>
 
 void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool transaction){
   sqlite3 *db = NULL;
@@ -1084,12 +1085,12 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  struct cee_str *qx = cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                                  int_column_name, from_clause);
 
   struct cee_json *input = NULL, *max_value = NULL;
-  cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
+  cee_sqlite3_select1(cs, NULL, NULL, qx->_, &input);
+  cee_del(qx);
   if( cee_json_select(input, ".error") ){
     *status = input;
     return -1;
@@ -1097,7 +1098,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 
   if( (max_value = cee_json_select(input, ".max_value:n")) ){
     int int_value = 0;
-    if( !cee_json_to_intx(max_value, &int_value) )
+    if( !cee_json_to_intx(max_value, &int_value) && int_value < INT_MAX )
       return int_value + 1;
   }else if( cee_json_select(input, ".max_value:!") ){
     /* no rows */
-- 
2.43.0


From 44801e2ad85ddd91ef750d7a733a8ba94d4bf9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 62/70] fix: SQLite joins on a 64-bit column or a value of the
 wrong kind bound an unrelated value

---
 sqlite3/join.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..3e1f49d 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -32,7 +32,9 @@ static int join_one (void *ctx, void *elem, int idx) {
     }
     switch( value->t ){
       case CEE_JSON_I64:
-        if( cee_json_to_intx(value, &item->i) ){
+        if( info[i].type == CEE_SQLITE3_INT64
+            ? cee_json_to_i64x(value, &item->i64)
+            : (info[i].type != CEE_SQLITE3_INT || cee_json_to_intx(value, &item->i)) ){
           cee_json_object_set_strf(
             one, "error", "failed to convert json key %s's value to int",
             info[i].col_name);
@@ -40,6 +42,12 @@ static int join_one (void *ctx, void *elem, int idx) {
         }
         break; /* switch */
       case CEE_JSON_STRING:
+        if( info[i].type != CEE_SQLITE3_TEXT ){
+          cee_json_object_set_strf(
+            one, "error", "json key %s's value should not be text",
+            info[i].col_name);
+          return 1; /* stop */
+        }
         item->value = cee_json_to_str(value)->_;
         break; /* switch */
       case CEE_JSON_NULL:
-- 
2.43.0


From 750c256d26176139c37995bc131e99e22818b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 63/70] fix: cee_sqlite3_insert left the id unset when no
 result object was asked for

---
 sqlite3/cee-sqlite3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index a3f6491..d8d2a9d 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -299,9 +299,11 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
-  else if( result ){
+  else{
     sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
-    if( key )
+    if( result == NULL )
+      ; /* nobody wants to know */
+    else if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
-- 
2.43.0


From e7bd7ee1bd8956fbf4c12a6cc1274f0b4370111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 64/70] fix: count more than 65535 claims on an object

The reference count of an object was 16 bits wide. An object held 65536
times by a list and once more by another container was freed with the
latter while the list still held it. A 32-bit count fits the padding
that follows it.
---
 cee-common.c  | 2 +-
 cee.h         | 2 +-
 release/cee.c | 4 ++--
 release/cee.h | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index 4d90953..a2979ec 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -85,7 +85,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   return cs->in_degree;
 }
diff --git a/cee.h b/cee.h
index 22abddf..766d98d 100644
--- a/cee.h
+++ b/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
diff --git a/release/cee.c b/release/cee.c
index 6f4beca..9d6cfb7 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -98,7 +98,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -1317,7 +1317,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   return cs->in_degree;
 }
diff --git a/release/cee.h b/release/cee.h
index 22abddf..766d98d 100644
--- a/release/cee.h
+++ b/release/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
-- 
2.43.0


From f754f62de24e55886da7f81d89c7f931601900e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 65/70] fix: merging a list or a JSON array into itself never
 ended

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/value.c            | 4 ++--
 list.c                      | 9 +++------
 release/cee.c               | 9 +++------
 4 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 80378b6..bd84d07 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -846,8 +846,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  size_t i, n = cee_list_size(s); /* src can be dest */
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index 6d6ed62..4ee2521 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -622,8 +622,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  size_t i, n = cee_list_size(s); /* src can be dest */
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/list.c b/list.c
index 4be0a17..9f1b9b4 100644
--- a/list.c
+++ b/list.c
@@ -143,13 +143,10 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int S(_add_v)(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
 
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, S(_add_v));
+  size_t i, n = cee_list_size(src); /* src can be dest */
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
diff --git a/release/cee.c b/release/cee.c
index 9d6cfb7..6bd85b0 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3844,15 +3844,12 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int _cee_list__add_v(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
 
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, _cee_list__add_v);
+  size_t i, n = cee_list_size(src); /* src can be dest */
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
 
 struct _cee_tagged_header {
-- 
2.43.0


From 4198e1435eaa6fd50a5c3cdb4f1ba9fbd8ba3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:57 +0000
Subject: [PATCH 66/70] fix: attaching a database sent a cut-off statement when
 the buffer was small, and crashed for one in memory

---
 sqlite3/cee-sqlite3.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index d8d2a9d..91e520e 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1210,13 +1210,28 @@ cee_sqlite3_insert_json_array(struct cee_sqlite3 *cs,
 int cee_sqlite3_attach_db(struct cee_sqlite3 *cs, char *db_file, char *as_name,
                           char *buf, size_t size, char **errmsg){
   const char *filename = sqlite3_db_filename(cs->db, NULL);
-  snprintf(buf, size, "attach database \"%.*s/%s\" as %s;",
-           strrchr(filename, '/') - filename, filename, db_file, as_name);
+  const char *slash = filename ? strrchr(filename, '/') : NULL;
+  int n;
+  if( slash )
+    n = snprintf(buf, size, "attach database \"%.*s/%s\" as %s;",
+                 (int)(slash - filename), filename, db_file, as_name);
+  else /* in memory, or in the current directory */
+    n = snprintf(buf, size, "attach database \"%s\" as %s;", db_file, as_name);
+  if( n < 0 || (size_t)n >= size ){ /* part of it might name another database */
+    if( errmsg )
+      *errmsg = NULL;
+    return SQLITE_TOOBIG;
+  }
   return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
 }
 
 int cee_sqlite3_detach_db(struct cee_sqlite3 *cs, char *as_name,
                           char *buf, size_t size, char **errmsg){
-  snprintf(buf, size, "detach database '%s';", as_name);
+  int n = snprintf(buf, size, "detach database '%s';", as_name);
+  if( n < 0 || (size_t)n >= size ){
+    if( errmsg )
+      *errmsg = NULL;
+    return SQLITE_TOOBIG;
+  }
   return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
 }
-- 
2.43.0


From 8dbf69960fca94abc603597a8bb3a4153e5df30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 67/70] fix: $HOME inside a path of the database manager
 mangled it, and a long home directory overflowed it

---
 sqlite3/cee_dbm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index d526b0e..2f2639f 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -102,9 +102,12 @@ size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *
 
 static void replace_home_env(char path[128], char *home_dir){
   char buf[128];
-  if( strstr(path, "$HOME") ){
+  if( strncmp(path, "$HOME", strlen("$HOME")) == 0 ){
     int n = snprintf(buf, sizeof buf, "%s%s", home_dir, path + strlen("$HOME"));
-    memcpy(path, buf, n+1);
+    if( n >= 0 && (size_t)n < sizeof buf )
+      memcpy(path, buf, n+1);
+    else
+      fprintf(stderr, "%s is too long with %s\n", path, home_dir);
   }
 }
 
-- 
2.43.0


From b38a36fa947298ec0ecc301289cdf4fb5f406755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 68/70] fix: descriptions of the database manager were written
 beyond a short buffer

---
 sqlite3/cee_dbm.c | 71 ++++++++++++-----------------------------------
 1 file changed, 18 insertions(+), 53 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 2f2639f..65edb1e 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -84,20 +84,17 @@ int cee_dbm_db_info_load(char *start, size_t size, struct cee_dbm_db_info *info)
 #endif
 
 size_t cee_dbm_path_info_snprint(char *buf, size_t size, struct cee_dbm_path_info *s){
-  size_t offset = 0;
-  offset += snprintf(buf+offset, size-offset, "schema_script_path:%s, ", s->schema_script_path);
-  offset += snprintf(buf+offset, size-offset, "data_script_path:%s, ", s->data_script_path);
-  offset += snprintf(buf+offset, size-offset, "db_file_path:%s, ", s->db_file_path);
-  return offset;
+  return snprintf(buf, size,
+                  "schema_script_path:%s, data_script_path:%s, db_file_path:%s, ",
+                  s->schema_script_path, s->data_script_path, s->db_file_path);
 }
 
 size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *s){
-  size_t offset = 0;
-  offset += snprintf(buf, size, "db_kind:%s, ", s->kind);
-  offset += snprintf(buf+offset, size-offset, "create_version:%d, ", s->create_version);
-  offset += snprintf(buf+offset, size-offset, "recreate_db:%s, ", s->recreate_db ? "true":"false");
-  offset += snprintf(buf+offset, size-offset, "restore_db:%s, ", s->restore_db ? "true":"false");
-  return offset;
+  return snprintf(buf, size,
+                  "db_kind:%s, create_version:%d, recreate_db:%s, restore_db:%s, ",
+                  s->kind, s->create_version,
+                  s->recreate_db ? "true":"false",
+                  s->restore_db ? "true":"false");
 }
 
 static void replace_home_env(char path[128], char *home_dir){
@@ -329,51 +326,19 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
 
 
 void cee_dbm_path_info2str(struct cee_dbm_path_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "schema_script_path:%s, ",  info->schema_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "data_script_path:%s, ",  info->data_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "db_file_path:%s",  info->db_file_path);
-  remaining_size -= n;
-  next += n;
+  snprintf(buf, buf_size,
+           "schema_script_path:%s, data_script_path:%s, db_file_path:%s",
+           info->schema_script_path, info->data_script_path, info->db_file_path);
 }
 
 void cee_dbm_db_info2str(struct cee_dbm_db_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "kind:%s, ",  info->kind);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "file:%s, ",  info->file);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "recreate_db:%s, ",
-               info->recreate_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "restore_db:%s, ",
-               info->restore_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "create_version:%d, ",
-               info->create_version);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "final_version:%d",
-               info->final_version);
-  remaining_size -= n;
-  next += n;
+  snprintf(buf, buf_size,
+           "kind:%s, file:%s, recreate_db:%s, restore_db:%s, "
+           "create_version:%d, final_version:%d",
+           info->kind, info->file,
+           info->recreate_db ? "true":"false",
+           info->restore_db ? "true":"false",
+           info->create_version, info->final_version);
 }
 
 
-- 
2.43.0


From 216f164f7d6bfe4320a76db514cd3577d2bfee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 69/70] fix: backing up a database that does not exist left the
 log open

---
 sqlite3/cee_dbm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 65edb1e..3e3ff70 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -365,6 +365,7 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
   if( access(db_file, F_OK) != 0 ){
     snprintf(log, sizeof log, "%s does not exist", db_file);
     add_log(&log_cs, kind, "backup_failed", log);
+    sqlite3_close(log_cs.db);
     return false;
   }
 
-- 
2.43.0


From 3998119cfd891ee373be3da3a3f2563a9d2feb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 70/70] fix: the database manager cut long paths and used other
 files, or ran a cut-off shell command

---
 sqlite3/cee_dbm.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 3e3ff70..9cdb5df 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -14,6 +14,7 @@
 #include <stdbool.h>
 #include <libgen.h>
 #include <time.h>
+#include <limits.h>
 
 /*
  *
@@ -118,7 +119,7 @@ void cee_dbm_open_db(struct cee_state *state, struct cee_sqlite3 *cs,
                      struct cee_dbm_path_info *path_info,
                      char *db_kind, char *db_file,
                      sqlite3* (*open_db)(const char *db_file)){
-  char file[128];
+  char file[PATH_MAX];
   snprintf(file, sizeof file, "%s/%s", path_info->db_file_path, db_file);
   if( access(file, F_OK) != 0 ){
     fprintf(stderr, "db file %s does not exist\n", file);
@@ -130,7 +131,7 @@ void cee_dbm_open_db(struct cee_state *state, struct cee_sqlite3 *cs,
 void cee_dbm_attach_db(struct cee_sqlite3 *cs,
                        struct cee_dbm_path_info *path_info,
                        char *db_file, char *as_name){
-  char file[256];
+  char file[2*PATH_MAX];
   snprintf(file, sizeof file, "%s/%s", path_info->db_file_path, db_file);
   if( access(file, F_OK) != 0 ){
     fprintf(stderr, "db file %s does not exist\n", file);
@@ -158,7 +159,7 @@ static int get_user_version(const char *db_file){
 
 
 void open_dbm_log(struct cee_dbm_path_info *path_info, sqlite3 **db){
-  char db_file[128];
+  char db_file[PATH_MAX];
   snprintf(db_file, sizeof db_file, "%s/cee_dbm_log.db", path_info->db_file_path);
   cee_sqlite3_init_db(db, db_file,
                       "create table if not exists log("
@@ -192,7 +193,7 @@ void add_log(struct cee_sqlite3 *cs, char *kind, char *action, char *row){
 
 static
 void my_apply_script(char *kind, const char *db_file, const char *script_file, struct cee_sqlite3 *cs){
-  char log[64];
+  char log[2*PATH_MAX];
   size_t len;
   snprintf(log, sizeof log, "%s to %s", script_file, db_file);
   add_log(cs, kind, "apply", log);
@@ -202,7 +203,7 @@ void my_apply_script(char *kind, const char *db_file, const char *script_file, s
 }
 
 bool cee_dbm_db_exist(struct cee_dbm_path_info *path_info, const char *db_file_){
-  char db_file[128];
+  char db_file[PATH_MAX];
   snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, db_file_);
   if( access(db_file, F_OK) == 0 )
     return true;
@@ -216,11 +217,11 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
                      const char *restore_data_prefix,
                      int *db_version){
   struct cee_sqlite3 log_cs = {0};
-  char log[256];
+  char log[2*PATH_MAX];
   open_dbm_log(path_info, &log_cs.db);
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[PATH_MAX];
+  char db_file[PATH_MAX], *kind = s->kind;
   bool is_new_db = false;
   int current_version, migrated_version;
 
@@ -232,7 +233,7 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   snprintf(log, sizeof log, "%s", db_file);
   add_log(&log_cs, kind, "open", log);
 
-  char *x, dir[128];
+  char *x, dir[PATH_MAX];
   if( (x = rindex(db_file, '/')) ){
     snprintf(dir, sizeof dir, "%.*s", x - db_file, db_file);
     //extern int mkdir_p(char *dir, mode_t mode);
@@ -347,11 +348,11 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
                        const char *db_file_,
                        const char *restore_data_prefix){
   struct cee_sqlite3 log_cs = {0};
-  char log[256];
+  char log[2*PATH_MAX];
   open_dbm_log(path_info, &log_cs.db);
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[3*PATH_MAX];
+  char db_file[PATH_MAX], *kind = s->kind;
   int current_version;
 
   if( db_file_ )
-- 
2.43.0

