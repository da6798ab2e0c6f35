From bd603cc4616808249ceeb552b5d46986b0701616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 01/75] fix: cee_str_mkv must not consume its va_list twice

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 9e70323..9083bec 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1914,7 +1914,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
diff --git a/str.c b/str.c
index 458626b..df207c0 100644
--- a/str.c
+++ b/str.c
@@ -77,7 +77,7 @@ struct cee_str * cee_str_mkv (struct cee_state *st, const char *fmt, va_list ap)
   uintptr_t s;
   va_list prob_ap;
   va_copy(prob_ap, ap);
-  s = vsnprintf(NULL, 0, fmt, ap);
+  s = vsnprintf(NULL, 0, fmt, prob_ap);
   va_end(prob_ap);
   s ++;
 
-- 
2.43.0


From b46719caacfe8eaff01e9ed27bbdb3050e5d8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 02/75] fix: cee_str_strn terminates the string it creates

---
 release/cee.c | 1 +
 str.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index 9083bec..51081af 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1901,6 +1901,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct _cee_str_header);
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
diff --git a/str.c b/str.c
index df207c0..34df67d 100644
--- a/str.c
+++ b/str.c
@@ -64,6 +64,7 @@ struct cee_str * cee_str_strn(struct cee_state *st, char *str, size_t size) {
   h->capacity = s - sizeof(struct S(header));
 
   memcpy(h->_, str, size);
+  h->_[size] = '\0';
   return (struct cee_str *)(h->_);
 }
 
-- 
2.43.0


From bbdd9868cb3fc071400aba253679f18a697dc1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 03/75] fix: cee_str_add keeps room for the terminator and
 appends after the contents when it grows

---
 release/cee.c | 6 +++---
 str.c         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 51081af..4190ada 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2024,15 +2024,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct _cee_str_header * b = (struct _cee_str_header *)((void *)((char *)(str) - (__builtin_offsetof(struct _cee_str_header, _))));
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct _cee_str_header * b1 = _cee_str_resize(b, (2 * ((b->cs.mem_block_size) > (64) ? (b->cs.mem_block_size): (64))));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct _cee_str_header);
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
diff --git a/str.c b/str.c
index 34df67d..60b485c 100644
--- a/str.c
+++ b/str.c
@@ -187,15 +187,15 @@ char * cee_str_end(struct cee_str * str) {
 struct cee_str * cee_str_add(struct cee_str * str, char c) {
   struct S(header) * b = FIND_HEADER(str);
   uint32_t slen = strlen((char *)str);
-  if( slen < b->capacity ){
+  if( slen + 1 < b->capacity ){
     b->_[slen] = c;
     b->_[slen+1] = '\0';
     return (struct cee_str *)(b->_);
   }else{
     struct S(header) * b1 = S(resize)(b, _CEE_NEWSIZE(b->cs.mem_block_size, CEE_BLOCK));
     b1->capacity = b1->cs.mem_block_size - sizeof(struct S(header));
-    b1->_[b->capacity] = c;
-    b1->_[b->capacity+1] = '\0';
+    b1->_[slen] = c;
+    b1->_[slen+1] = '\0';
     return (struct cee_str *)(b1->_);
   }
 }
-- 
2.43.0


From 9c464fd13c2995d05ce5875e4ed073158e1ea501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 04/75] fix: cee_str_rtrim and cee_str_ltrim remove all white
 space of their side

---
 release/cee.c | 4 ++--
 str.c         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 4190ada..d7b21b1 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2093,7 +2093,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -2108,7 +2108,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
diff --git a/str.c b/str.c
index 60b485c..ff03773 100644
--- a/str.c
+++ b/str.c
@@ -256,7 +256,7 @@ struct cee_str* cee_str_replace(struct cee_str *str, const char *fmt, ...) {
 
 void cee_str_rtrim(struct cee_str *s){
   int slen = strlen(s->_);
-  for( int i = slen - 1; i > 0; i -- ){
+  for( int i = slen - 1; i >= 0; i -- ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
       s->_[i] = 0;
@@ -271,7 +271,7 @@ void cee_str_ltrim(struct cee_str *s){
   for( int i = 0; s->_[i]; i ++ ){
     char c = s->_[i];
     if( c == ' ' || c == '\n' || c == '\r' || c == '\t' )
-      start = i;
+      start = i + 1;
     else
       break;
   }
-- 
2.43.0


From b91635c097f29232fe395060792483e93078de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 05/75] fix: cee_str_mk_e provides the requested buffer size
 also when given a format

---
 release/cee.c | 4 ++++
 str.c         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index d7b21b1..989f9ab 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1962,7 +1962,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -1984,6 +1987,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
diff --git a/str.c b/str.c
index ff03773..eb371ad 100644
--- a/str.c
+++ b/str.c
@@ -125,7 +125,10 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if (fmt) {
     va_start(ap, fmt);
     s = vsnprintf(NULL, 0, fmt, ap);
+    va_end(ap);
     s ++; /* including the null terminator */
+    if (s < n)
+      s = n;
   }
   else
     s = n;
@@ -147,6 +150,7 @@ struct cee_str * cee_str_mk_e (struct cee_state * st, size_t n, const char * fmt
   if( fmt ){
     va_start(ap, fmt);
     vsnprintf(m->_, m->capacity, fmt, ap);
+    va_end(ap);
   }else{
     m->_[0] = '\0'; /* terminates with '\0' */
   }
-- 
2.43.0


From f5f68546a9f1e9de49766ec68625936f369056d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 06/75] fix: cee_list_iterate returns 0 for an empty list

---
 list.c        | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/list.c b/list.c
index 86a29b1..4be0a17 100644
--- a/list.c
+++ b/list.c
@@ -135,7 +135,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
 		       int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct S(header) *m = FIND_HEADER(x);
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
diff --git a/release/cee.c b/release/cee.c
index 989f9ab..f10be0d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3843,7 +3843,7 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
          int (*f)(void *cxt, void *e, int idx)) {
   if (!x) return 0;
   struct _cee_list_header *m = (struct _cee_list_header *)((void *)((char *)(x) - (__builtin_offsetof(struct _cee_list_header, _))));
-  int i, ret;
+  int i, ret = 0;
   for (i = 0; i < m->size; i++) {
     ret = f(ctx, x->a[i], i);
     if (ret) break;
-- 
2.43.0


From 1c84fbe888cd59770b381bf23217a87966bc057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 07/75] fix: cee_list_merge of a list with itself ends

---
 list.c        | 11 ++++-------
 release/cee.c | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/list.c b/list.c
index 4be0a17..4264124 100644
--- a/list.c
+++ b/list.c
@@ -143,13 +143,10 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int S(_add_v)(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, S(_add_v));
+  /* dest and src may be the same list: append only what src has now */
+  size_t i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
diff --git a/release/cee.c b/release/cee.c
index f10be0d..428fffc 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3851,15 +3851,12 @@ int cee_list_iterate (struct cee_list *x, void *ctx,
   return ret;
 }
 
-static int _cee_list__add_v(void *cxt, void *e, int idx){
-  struct cee_list *l = cxt;
-  cee_list_append(l, e);
-  return 0;
-}
-
 void cee_list_merge (struct cee_list *dest, struct cee_list *src)
 {
-  cee_list_iterate (src, dest, _cee_list__add_v);
+  /* dest and src may be the same list: append only what src has now */
+  size_t i, n = cee_list_size(src);
+  for (i = 0; i < n; i++)
+    cee_list_append(dest, src->a[i]);
 }
 
 struct _cee_tagged_header {
-- 
2.43.0


From 6c052cb4bf4df5dd111580be0c1aaffd4c3e84d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 08/75] fix: the insertion order of a map neither owns its keys
 nor is lost in gc

---
 map.c         | 4 +++-
 release/cee.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/map.c b/map.c
index ee52dd6..2730aee 100644
--- a/map.c
+++ b/map.c
@@ -68,6 +68,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], S(trace_pair));
       break;
   }
@@ -84,7 +85,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct S(header));
   struct S(header) * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the key/value tuples own the keys, whatever their delete policy is */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   ZERO_CEE_SECT(&m->cs);
diff --git a/release/cee.c b/release/cee.c
index 428fffc..b7769f7 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2526,6 +2526,7 @@ static void _cee_map_trace(void * p, enum cee_trace_action ta) {
     default:
       h->cs.gc_mark = ta - CEE_TRACE_MARK;
       h->ta = ta;
+      cee_trace(h->insertion_ordered_keys, ta);
       musl_twalk(&ta, h->_[0], _cee_map_trace_pair);
       break;
   }
@@ -2542,7 +2543,8 @@ struct cee_map * cee_map_mk_e (struct cee_state * st, enum cee_del_policy o[2],
                   int (*cmp)(const void *, const void *)) {
   size_t mem_block_size = sizeof(struct _cee_map_header);
   struct _cee_map_header * m = malloc(mem_block_size);
-  m->insertion_ordered_keys = cee_list_mk(st, 16);
+  /* the key/value tuples own the keys, whatever their delete policy is */
+  m->insertion_ordered_keys = cee_list_mk_e(st, CEE_DP_NOOP, 16);
   m->cmp = cmp;
   m->size = 0;
   do{ memset(&m->cs, 0, sizeof(struct cee_sect)); } while(0);;
-- 
2.43.0


From e227e84441473b553ddbca90f2ff676bc931c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 09/75] fix: lists of the keys or values of a map do not own
 objects the map does not count

---
 map.c         | 13 ++++++++++---
 release/cee.c | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/map.c b/map.c
index 2730aee..b355da7 100644
--- a/map.c
+++ b/map.c
@@ -224,10 +224,17 @@ static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const
   }
 }
 
+/*
+ * the delete policy of a list that holds the keys or the values of a map
+ */
+static enum cee_del_policy S(list_policy)(enum cee_del_policy o) {
+  return o == CEE_DP_DEL_RC ? CEE_DP_DEL_RC : CEE_DP_NOOP;
+}
+
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct S(header) * b = FIND_HEADER(m);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, S(list_policy)(b->del_policies._.key), n);
   musl_twalk(keys, b->_[0], S(get_key));
   return keys;
 }
@@ -235,7 +242,7 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct S(header) * b = FIND_HEADER(m);
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, S(list_policy)(b->del_policies._.key), n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -260,7 +267,7 @@ static void S(get_value) (void * ctx, const void *nodep, const VISIT which, cons
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct S(header) *b = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(b->cs.state, S(list_policy)(b->del_policies._.val), s);
   musl_twalk(values, b->_[0], S(get_value));
   return values;
 }
diff --git a/release/cee.c b/release/cee.c
index b7769f7..971a713 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2682,10 +2682,17 @@ static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which,
   }
 }
 
+/*
+ * the delete policy of a list that holds the keys or the values of a map
+ */
+static enum cee_del_policy _cee_map_list_policy(enum cee_del_policy o) {
+  return o == CEE_DP_DEL_RC ? CEE_DP_DEL_RC : CEE_DP_NOOP;
+}
+
 struct cee_list * cee_map_keys(struct cee_map * m) {
   uintptr_t n = cee_map_size(m);
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, _cee_map_list_policy(b->del_policies._.key), n);
   musl_twalk(keys, b->_[0], _cee_map_get_key);
   return keys;
 }
@@ -2693,7 +2700,7 @@ struct cee_list * cee_map_keys(struct cee_map * m) {
 struct cee_list * cee_map_insertion_ordered_keys(struct cee_map * m){
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   uintptr_t n = cee_list_size(b->insertion_ordered_keys);
-  struct cee_list *keys = cee_list_mk(b->cs.state, n);
+  struct cee_list *keys = cee_list_mk_e(b->cs.state, _cee_map_list_policy(b->del_policies._.key), n);
 
   for( int i = 0; i < n; i++ ){
     cee_list_append(keys, b->insertion_ordered_keys->a[i]);
@@ -2718,7 +2725,7 @@ static void _cee_map_get_value (void * ctx, const void *nodep, const VISIT which
 struct cee_list* cee_map_values(struct cee_map *m) {
   uintptr_t s = cee_map_size(m);
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
-  struct cee_list *values = cee_list_mk(b->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(b->cs.state, _cee_map_list_policy(b->del_policies._.val), s);
   musl_twalk(values, b->_[0], _cee_map_get_value);
   return values;
 }
-- 
2.43.0


From 90b53bba36fee9f6c894e62c98c90eac3e1eebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 10/75] fix: replacing the value of a key keeps the reference
 counts right

---
 map.c         | 13 ++++++++++---
 release/cee.c | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/map.c b/map.c
index b355da7..faf5303 100644
--- a/map.c
+++ b/map.c
@@ -135,10 +135,17 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
       new_value = merge(ctx, old_value, new_value);
 
     /* detach old_value  and capture new_value */
-    if (new_value != old_value) {
-      t1->_[1] = new_value; 
-      cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
+    if (b->del_policies._.val == CEE_DP_DEL_RC) {
+      /* t1 refers to new_value instead of old_value, t does not refer to value any more */
+      cee_incr_indegree(CEE_DP_DEL_RC, new_value);
+      cee_decr_indegree(CEE_DP_DEL_RC, old_value);
+      cee_decr_indegree(CEE_DP_DEL_RC, value);
     }
+    else if (new_value != old_value) {
+      cee_incr_indegree(b->del_policies._.val, new_value);
+      cee_decr_indegree(b->del_policies._.val, old_value);
+    }
+    t1->_[1] = new_value;
     cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);    
     return old_value;
diff --git a/release/cee.c b/release/cee.c
index 971a713..27e5151 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2593,10 +2593,17 @@ void* cee_map_add_e(struct cee_map * m, void * key, void * value,
       new_value = merge(ctx, old_value, new_value);
 
     /* detach old_value  and capture new_value */
-    if (new_value != old_value) {
-      t1->_[1] = new_value;
-      cee_decr_indegree(b->del_policies._.val, old_value); /* decrease the rc of old value */
+    if (b->del_policies._.val == CEE_DP_DEL_RC) {
+      /* t1 refers to new_value instead of old_value, t does not refer to value any more */
+      cee_incr_indegree(CEE_DP_DEL_RC, new_value);
+      cee_decr_indegree(CEE_DP_DEL_RC, old_value);
+      cee_decr_indegree(CEE_DP_DEL_RC, value);
     }
+    else if (new_value != old_value) {
+      cee_incr_indegree(b->del_policies._.val, new_value);
+      cee_decr_indegree(b->del_policies._.val, old_value);
+    }
+    t1->_[1] = new_value;
     cee_tuple_update_del_policy(t, 1, CEE_DP_NOOP); /* do nothing for t[1] */
     cee_del(t);
     return old_value;
-- 
2.43.0


From 549da488a5bcd134eead3c7fd827934bd2bda8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 11/75] fix: deleting a set passes its delete policy on

---
 release/cee.c | 2 +-
 set.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 27e5151..ccba426 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2913,7 +2913,7 @@ static void _cee_set_trace(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], _cee_set_free_pair_follow);
+      musl_tdestroy(&h->del_policy, h->_[0], _cee_set_free_pair_follow);
       _cee_set_de_chain(h);
       free(h);
       break;
diff --git a/set.c b/set.c
index 88ca5ff..ccf7d5e 100644
--- a/set.c
+++ b/set.c
@@ -51,7 +51,7 @@ static void S(trace)(void * p, enum cee_trace_action ta) {
       free(h);
       break;
     case CEE_TRACE_DEL_FOLLOW:
-      musl_tdestroy(NULL, h->_[0], S(free_pair_follow));
+      musl_tdestroy(&h->del_policy, h->_[0], S(free_pair_follow));
       S(de_chain)(h);
       free(h);
       break;
-- 
2.43.0


From 26f4f789ea95d5a96087bc111338f5de42a159ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 12/75] fix: set functions treat NULL as the empty set, as
 documented

---
 release/cee.c | 4 ++++
 set.c         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index ccba426..d49b4df 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2958,11 +2958,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(s) - (__builtin_offsetof(struct _cee_set_header, _))));
   return h->size == 0;
 }
@@ -3009,6 +3011,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void **oldp = (void **) musl_tfind(h, key, h->_, _cee_set_cmp);
   if (oldp == NULL)
@@ -3041,6 +3044,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
   void ** old = (void **)musl_tfind(h, key, h->_, _cee_set_cmp);
   if (old == NULL)
diff --git a/set.c b/set.c
index ccf7d5e..9397c7f 100644
--- a/set.c
+++ b/set.c
@@ -96,11 +96,13 @@ struct cee_set * cee_set_mk (struct cee_state * s, int (*cmp)(const void *, cons
 }
 
 size_t cee_set_size (struct cee_set * s) {
+  if (!s) return 0;
   struct S(header) * h = FIND_HEADER(s);
   return h->size;
 }
 
 bool cee_set_empty (struct cee_set * s) {
+  if (!s) return true;
   struct S(header) * h = FIND_HEADER(s);
   return h->size == 0;
 }
@@ -147,6 +149,7 @@ void cee_set_clear (struct cee_set * s) {
 }
 
 void * cee_set_find(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void **oldp = (void **) musl_tfind(h, key, h->_, S(cmp));
   if (oldp == NULL)
@@ -179,6 +182,7 @@ struct cee_list * cee_set_values(struct cee_set * m) {
 }
 
 void * cee_set_remove(struct cee_set *m, void * key) {
+  if (!m) return NULL;
   struct S(header) * h = FIND_HEADER(m);
   void ** old = (void **)musl_tfind(h, key, h->_, S(cmp));
   if (old == NULL)
-- 
2.43.0


From 63e650e287b0d0a6076b4789a8716501df9a3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 13/75] fix: map functions treat NULL as documented

---
 map.c         | 4 ++--
 release/cee.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/map.c b/map.c
index faf5303..615c2ce 100644
--- a/map.c
+++ b/map.c
@@ -161,7 +161,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) * b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
@@ -187,7 +187,7 @@ static void cee_map_ordered_key_delete(struct S(header) *b, void *deleted_key){
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct S(header) *b = FIND_HEADER(m);
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, S(cmp));
diff --git a/release/cee.c b/release/cee.c
index d49b4df..330e5eb 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2619,7 +2619,7 @@ void* cee_map_add(struct cee_map * m, void * key, void * value) {
 }
 
 void* cee_map_find(struct cee_map * m, void * key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header * b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
@@ -2645,7 +2645,7 @@ static void cee_map_ordered_key_delete(struct _cee_map_header *b, void *deleted_
 }
 
 void* cee_map_remove(struct cee_map * m, void *key){
-  if( key == NULL ) return NULL;
+  if( m == NULL || key == NULL ) return NULL;
   struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
   struct cee_tuple t = { key, 0 };
   struct cee_tuple **pp = musl_tfind(b, &t, b->_, _cee_map_cmp);
-- 
2.43.0


From 3dc862595a8776bda059724474e2927a65d3e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 14/75] fix: adding an element twice to a set does not count it
 twice

---
 release/cee.c | 10 +++++-----
 set.c         |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 330e5eb..b3ff4d1 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2975,14 +2975,14 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
-  void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
+  if (musl_tfind(h, val, h->_, _cee_set_cmp))
+    // should val be freed
+    return;
 
+  void ** oldp = (void **) musl_tsearch(h, val, h->_, _cee_set_cmp);
+  
   if (oldp == NULL)
     cee_segfault();
-  else if (*oldp != (void *)val) {
-    // should val be freed
-    return;
-  }
   else {
     h->size ++;
     cee_incr_indegree(h->del_policy, val);
diff --git a/set.c b/set.c
index 9397c7f..4e5a43c 100644
--- a/set.c
+++ b/set.c
@@ -113,14 +113,14 @@ bool cee_set_empty (struct cee_set * s) {
  */
 void cee_set_add(struct cee_set *m, void *val) {
   struct S(header) * h = FIND_HEADER(m);
+  if (musl_tfind(h, val, h->_, S(cmp)))
+    // should val be freed
+    return;
+
   void ** oldp = (void **) musl_tsearch(h, val, h->_, S(cmp));
   
   if (oldp == NULL)
     cee_segfault();
-  else if (*oldp != (void *)val) {
-    // should val be freed
-    return;
-  }
   else {
     h->size ++;
     cee_incr_indegree(h->del_policy, val);
-- 
2.43.0


From a22e43e961a8817343f71541fa6dc56d168e71b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 15/75] fix: cee_set_remove gives up the reference of the set,
 like cee_map_remove

---
 release/cee.c | 1 +
 set.c         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/release/cee.c b/release/cee.c
index b3ff4d1..e5e166c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3053,6 +3053,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, _cee_set_cmp);
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
diff --git a/set.c b/set.c
index 4e5a43c..6ee7f8e 100644
--- a/set.c
+++ b/set.c
@@ -191,6 +191,7 @@ void * cee_set_remove(struct cee_set *m, void * key) {
     h->size --;
     void * k = *old;
     musl_tdelete(h, key, h->_, S(cmp));
+    cee_decr_indegree(h->del_policy, k);
     return k;
   }
 }
-- 
2.43.0


From c9f48c56b234afa0edd3b10fef005a29c733fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 16/75] fix: the list of the elements of a set does not own
 objects the set does not count

---
 release/cee.c | 3 ++-
 set.c         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index e5e166c..1d8fee9 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3037,7 +3037,8 @@ static void _cee_set_get_value (void * cxt, const void *nodep, const VISIT which
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct _cee_set_header * h = (struct _cee_set_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_set_header, _))));
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(h->cs.state,
+                                          h->del_policy == CEE_DP_DEL_RC ? CEE_DP_DEL_RC : CEE_DP_NOOP, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], _cee_set_get_value);
   return values;
diff --git a/set.c b/set.c
index 6ee7f8e..6dc1532 100644
--- a/set.c
+++ b/set.c
@@ -175,7 +175,8 @@ static void S(get_value) (void * cxt, const void *nodep, const VISIT which, cons
 struct cee_list * cee_set_values(struct cee_set * m) {
   uintptr_t s = cee_set_size(m);
   struct S(header) * h = FIND_HEADER(m);
-  struct cee_list *values = cee_list_mk(h->cs.state, s);
+  struct cee_list *values = cee_list_mk_e(h->cs.state,
+                                          h->del_policy == CEE_DP_DEL_RC ? CEE_DP_DEL_RC : CEE_DP_NOOP, s);
   cee_use_realloc(values);
   musl_twalk(values, h->_[0], S(get_value));
   return values;
-- 
2.43.0


From 2f102e8eefd272fe3ac60cdfeb3fcc6921e46c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 17/75] fix: an environment counts its references to its outer
 environment and its variables

---
 env.c         | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/env.c b/env.c
index 983c90f..ac5f3af 100644
--- a/env.c
+++ b/env.c
@@ -58,6 +58,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
   
   return &h->_;
 }
diff --git a/release/cee.c b/release/cee.c
index 1d8fee9..4dc9d42 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4525,6 +4525,10 @@ struct cee_env * cee_env_mk_e(struct cee_state * st, enum cee_del_policy dp[2],
   h->vars_dp = dp[1];
   h->_.outer = outer;
   h->_.vars = vars;
+  if (outer)
+    cee_incr_indegree(dp[0], outer);
+  if (vars)
+    cee_incr_indegree(dp[1], vars);
 
   return &h->_;
 }
-- 
2.43.0


From f88597c0a68faab812bc50bb8e536ee6667d7ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 18/75] fix: a reachable closure and its environment survive
 cee_state_gc

---
 closure.c     | 2 ++
 release/cee.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/closure.c b/closure.c
index cd0fd23..96cab35 100644
--- a/closure.c
+++ b/closure.c
@@ -28,6 +28,8 @@ static void S(trace) (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
diff --git a/release/cee.c b/release/cee.c
index 4dc9d42..e293dcc 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4110,6 +4110,8 @@ static void _cee_closure_trace (void * v, enum cee_trace_action sa) {
       break;
     case CEE_TRACE_MARK:
     default:
+      m->cs.gc_mark = sa - CEE_TRACE_MARK;
+      cee_trace(m->_.env, sa);
       break;
   }
 }
-- 
2.43.0


From ab829cee331a732029de9d1bfaa8343b4fdb2f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 19/75] fix: every cee_state_gc frees what was created
 unreachable since the last one

---
 release/cee.c | 5 +++--
 state.c       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index e293dcc..5aa878a 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4688,10 +4688,11 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   _cee_state_sweep(s, (enum cee_trace_action) mark);
 
-  if (s->next_mark == 0) {
+  /* 0 is the mark of new blocks, never use it for reachable ones */
+  if (s->next_mark == 2) {
     s->next_mark = 1;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 2;
   }
 }
 
diff --git a/state.c b/state.c
index a76f1cb..bc4d7d0 100644
--- a/state.c
+++ b/state.c
@@ -148,9 +148,10 @@ void cee_state_gc (struct cee_state * s) {
   cee_trace(s, (enum cee_trace_action)mark);
   S(sweep)(s, (enum cee_trace_action) mark);
   
-  if (s->next_mark == 0) {
+  /* 0 is the mark of new blocks, never use it for reachable ones */
+  if (s->next_mark == 2) {
     s->next_mark = 1;
   } else {
-    s->next_mark = 0;
+    s->next_mark = 2;
   }
 }
-- 
2.43.0


From 09034f97f05d7c77c18c20209ecab513d0ac05eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 20/75] fix: a dict whose table cannot be created is taken off
 the trace chain

---
 dict.c        | 1 +
 release/cee.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dict.c b/dict.c
index fee19b8..52a8dfb 100644
--- a/dict.c
+++ b/dict.c
@@ -76,6 +76,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    S(de_chain)(m);
     free(m);
     return NULL;
   }
diff --git a/release/cee.c b/release/cee.c
index 5aa878a..62e9d31 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2374,6 +2374,7 @@ struct cee_dict * cee_dict_mk_e (struct cee_state * s, enum cee_del_policy o, si
   else {
     cee_del(m->keys);
     cee_del(m->vals);
+    _cee_dict_de_chain(m);
     free(m);
     return NULL;
   }
-- 
2.43.0


From 3f4f02034498eeb4aa7103c97a140ea6521e7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 21/75] fix: a resized struct appended to the trace chain ends
 it

---
 cee-resize.h  |  1 +
 release/cee.c | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cee-resize.h b/cee-resize.h
index dc49b5a..c694c5d 100644
--- a/cee-resize.h
+++ b/cee-resize.h
@@ -7,6 +7,7 @@ static void S(chain) (struct S(header) * h, struct cee_state * st) {
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
diff --git a/release/cee.c b/release/cee.c
index 62e9d31..bdfd63a 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1391,6 +1391,7 @@ static void _cee_boxed_chain (struct _cee_boxed_header * h, struct cee_state * s
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -1806,6 +1807,7 @@ static void _cee_str_chain (struct _cee_str_header * h, struct cee_state * st) {
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -2268,6 +2270,7 @@ static void _cee_dict_chain (struct _cee_dict_header * h, struct cee_state * st)
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -2434,6 +2437,7 @@ static void _cee_map_chain (struct _cee_map_header * h, struct cee_state * st) {
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -2830,6 +2834,7 @@ static void _cee_set_chain (struct _cee_set_header * h, struct cee_state * st) {
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -3160,6 +3165,7 @@ static void _cee_stack_chain (struct _cee_stack_header * h, struct cee_state * s
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -3327,6 +3333,7 @@ static void _cee_tuple_chain (struct _cee_tuple_header * h, struct cee_state * s
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -3455,6 +3462,7 @@ static void _cee_triple_chain (struct _cee_triple_header * h, struct cee_state *
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -3576,6 +3584,7 @@ static void _cee_quadruple_chain (struct _cee_quadruple_header * h, struct cee_s
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -3697,6 +3706,7 @@ static void _cee_list_chain (struct _cee_list_header * h, struct cee_state * st)
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -3898,6 +3908,7 @@ static void _cee_tagged_chain (struct _cee_tagged_header * h, struct cee_state *
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -4046,6 +4057,7 @@ static void _cee_closure_chain (struct _cee_closure_header * h, struct cee_state
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -4164,6 +4176,7 @@ static void _cee_block_chain (struct _cee_block_header * h, struct cee_state * s
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -4300,6 +4313,7 @@ static void _cee_n_tuple_chain (struct _cee_n_tuple_header * h, struct cee_state
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
@@ -4434,6 +4448,7 @@ static void _cee_env_chain (struct _cee_env_header * h, struct cee_state * st) {
 
   h->cs.trace_prev = st->trace_tail;
   st->trace_tail->trace_next = &h->cs;
+  h->cs.trace_next = NULL; /* a resized struct still has the link of its old place */
 
   st->trace_tail = &h->cs;
 }
-- 
2.43.0


From 53308c435d0d8ac4717281366148bc31cc2a3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 22/75] fix: the JSON tokenizer stays inside its buffer and
 keeps 64-bit integers exact

---
 cee-json/release/cee-json.c | 76 +++++++++++++++++++++++--------------
 cee-json/tokenizer.c        | 76 +++++++++++++++++++++++--------------
 2 files changed, 95 insertions(+), 57 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 748e29d..5e2affe 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1923,11 +1923,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
-
-  for (next = buf; *s && *next == *s; next++, s++);
+  
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -2105,12 +2105,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -2129,6 +2129,11 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+/*  the character at p, or '\0' at the end of the buffer */
+static char char_at(struct tokenizer *t, char *p) {
+  return p < t->buf_end ? *p : '\0';
+}
+
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
   char *end = start;
@@ -2137,35 +2142,35 @@ static bool parse_number(struct tokenizer *t) {
   int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
-  if ('-' == *end) {
+  if ('-' == char_at(t, end)) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end))
+  if (!isdigit(char_at(t, end))) 
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end))
+  while (isdigit(char_at(t, ++end))) 
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if ('.' == char_at(t, end)) {
+    if (!isdigit(char_at(t, ++end)))
       return false;
-    while (isdigit(*++end))
+    while (isdigit(char_at(t, ++end))) 
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if ('e' == char_at(t, end) || 'E' == char_at(t, end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if ('+' == char_at(t, end) || '-' == char_at(t, end))
       ++end;
-    if (!isdigit(*end))
+    if (!isdigit(char_at(t, end))) 
       return false;
-    while (isdigit(*++end))
+    while (isdigit(char_at(t, ++end)))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -2173,20 +2178,33 @@ static bool parse_number(struct tokenizer *t) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
-  char *endptr=NULL;
-  if (is_exponent || !is_integer) {
-    t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+  /* 5th STEP: convert string to number, from a copy with a terminator */
+  char *copy = malloc(end - start + 1), *endptr = NULL;
+  if (NULL == copy)
+    return false;
+  memcpy(copy, start, end - start);
+  copy[end - start] = '\0';
+
+  errno = 0;
+  t->type = NUMBER_IS_I64;
+  if (!is_exponent && is_integer) {
+    t->number.i64 = strtoll(copy, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(copy, &endptr, 10);
+    }
   }
-  else {
-    t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+  if (is_exponent || !is_integer || errno == ERANGE) {
+    t->type = NUMBER_IS_DOUBLE;
+    t->number.real = strtod(copy, &endptr);
   }
 
+  bool converted = copy != endptr;
+  free(copy);
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -2216,17 +2234,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -2245,7 +2263,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
diff --git a/cee-json/tokenizer.c b/cee-json/tokenizer.c
index f7cf12a..f9c6129 100644
--- a/cee-json/tokenizer.c
+++ b/cee-json/tokenizer.c
@@ -1,6 +1,8 @@
 #ifndef CEE_JSON_AMALGAMATION
 #include <stdlib.h>
 #include <ctype.h>
+#include <errno.h>
+#include <string.h>
 #include "cee.h"
 #include "cee-json.h"
 #include "tokenizer.h"
@@ -179,11 +181,11 @@ static void utf8_encode(uint32_t value, struct utf8_seq *out) {
   }
 }
 
-static bool check(char * buf, char * s, char **ret)
+static bool check(char * buf, char * buf_end, char * s, char **ret)
 {
   char * next = buf;
   
-  for (next = buf; *s && *next == *s; next++, s++);
+  for (next = buf; *s && next < buf_end && *next == *s; next++, s++);
   if (*s==0) {
     *ret = next;
     return true;
@@ -361,12 +363,12 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   char *end = start;
 
   /*  reach the end of the string */
-  while (*end != '\0' && *end != '"') {
-    if ('\\' == *end++ && *end != '\0') { /*  check for escaped characters */
+  while (end < t->buf_end && *end != '\0' && *end != '"') {
+    if ('\\' == *end++ && end < t->buf_end && *end != '\0') { /*  check for escaped characters */
       ++end; /*  eat-up escaped character */
     }
   }
-  if (*end != '"') return false; /*  make sure reach end of string */
+  if (end >= t->buf_end || *end != '"') return false; /*  make sure reach end of string */
 
   char * unscp_str = NULL;
   size_t unscp_len = 0;
@@ -385,6 +387,11 @@ static bool parse_string(struct cee_state * st, struct tokenizer * t) {
   return false; /*  ill formed string */
 }
 
+/*  the character at p, or '\0' at the end of the buffer */
+static char char_at(struct tokenizer *t, char *p) {
+  return p < t->buf_end ? *p : '\0';
+}
+
 static bool parse_number(struct tokenizer *t) {
   char *start = t->buf;
   char *end = start;
@@ -393,35 +400,35 @@ static bool parse_number(struct tokenizer *t) {
   int offset_sign = 0;
 
   /* 1st STEP: check for a minus sign and skip it */
-  if ('-' == *end) {
+  if ('-' == char_at(t, end)) {
     ++end;
     offset_sign = 1;
   }
-  if (!isdigit(*end)) 
+  if (!isdigit(char_at(t, end))) 
     return false;
 
   /* 2nd STEP: skips until a non digit char found */
-  while (isdigit(*++end)) 
+  while (isdigit(char_at(t, ++end))) 
     continue;
 
   /* 3rd STEP: if non-digit char is not a comma then it must be an integer */
-  if ('.' == *end) {
-    if (!isdigit(*++end))
+  if ('.' == char_at(t, end)) {
+    if (!isdigit(char_at(t, ++end)))
       return false;
-    while (isdigit(*++end)) 
+    while (isdigit(char_at(t, ++end))) 
       continue;
     is_integer = false;
   }
 
   /* 4th STEP: check for exponent and skip its tokens */
   /*  TODO: check if its an integer or not and change 'is_integer' accordingly */
-  if ('e' == *end || 'E' == *end) {
+  if ('e' == char_at(t, end) || 'E' == char_at(t, end)) {
     ++end;
-    if ('+' == *end || '-' == *end)
+    if ('+' == char_at(t, end) || '-' == char_at(t, end))
       ++end;
-    if (!isdigit(*end)) 
+    if (!isdigit(char_at(t, end))) 
       return false;
-    while (isdigit(*++end))
+    while (isdigit(char_at(t, ++end)))
       continue;
     is_exponent = true;
   } /*  can't be a integer that starts with zero followed n numbers (ex: 012, -023) */
@@ -429,20 +436,33 @@ static bool parse_number(struct tokenizer *t) {
     return false;
   }
 
-  /* 5th STEP: convert string to number */
-  char *endptr=NULL;
-  if (is_exponent || !is_integer) {
-    t->type = NUMBER_IS_DOUBLE;
-    t->number.real = strtod(start, &endptr);
+  /* 5th STEP: convert string to number, from a copy with a terminator */
+  char *copy = malloc(end - start + 1), *endptr = NULL;
+  if (NULL == copy)
+    return false;
+  memcpy(copy, start, end - start);
+  copy[end - start] = '\0';
+
+  errno = 0;
+  t->type = NUMBER_IS_I64;
+  if (!is_exponent && is_integer) {
+    t->number.i64 = strtoll(copy, &endptr, 10);
+    if (errno == ERANGE && !offset_sign) {
+      errno = 0;
+      t->type = NUMBER_IS_U64;
+      t->number.u64 = strtoull(copy, &endptr, 10);
+    }
   }
-  else {
-    t->type = NUMBER_IS_I64;
-    t->number.i64 = strtoll(start, &endptr, 10);
+  if (is_exponent || !is_integer || errno == ERANGE) {
+    t->type = NUMBER_IS_DOUBLE;
+    t->number.real = strtod(copy, &endptr);
   }
 
+  bool converted = copy != endptr;
+  free(copy);
   t->buf = end; /* skips entire length of number */
 
-  return start != endptr;
+  return converted;
 }
 
 enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
@@ -472,17 +492,17 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case 't':
         t->buf++;
-        if(check(t->buf, "rue", &t->buf))
+        if(check(t->buf, t->buf_end, "rue", &t->buf))
           return tock_true;
         return tock_err;
     case 'n':
         t->buf++;
-        if(check(t->buf, "ull", &t->buf))
+        if(check(t->buf, t->buf_end, "ull", &t->buf))
           return tock_null;
         return tock_err;
     case 'f':
         t->buf++;
-        if(check(t->buf, "alse", &t->buf))
+        if(check(t->buf, t->buf_end, "alse", &t->buf))
           return tock_false;
         return tock_err;
     case '-':
@@ -501,7 +521,7 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
         return tock_err;
     case '/':
         t->buf++;
-        if(check(t->buf, "/", &t->buf)) {
+        if(check(t->buf, t->buf_end, "/", &t->buf)) {
           while(t->buf < t->buf_end) {
             c = t->buf[0];
             if(c=='\0') return tock_eof;
-- 
2.43.0


From f3550531eaa7c86f8061f23e71791a553bed9cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 23/75] fix: JSON documents print completely at any depth

---
 cee-json/release/cee-json.c | 31 ++++++++++++++++++++++++++++---
 cee-json/snprint.c          | 31 ++++++++++++++++++++++++++++---
 2 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 5e2affe..d59e3f2 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1374,7 +1374,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -1430,7 +1430,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
 
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
@@ -1539,6 +1539,30 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   *offp = offset;
 }
 
+/*
+ * the number of nested values of a cee_json, itself included
+ */
+static uintptr_t nesting (struct cee_json *j);
+
+static int deepest_elem (void *ctx, void *elem, int idx) {
+  uintptr_t n = nesting(elem), *max = ctx;
+  if (n > *max) *max = n;
+  return 0;
+}
+
+static int deepest_value (void *ctx, void *key, void *value) {
+  return deepest_elem(ctx, value, 0);
+}
+
+static uintptr_t nesting (struct cee_json *j) {
+  uintptr_t max = 0;
+  if (j->t == CEE_JSON_ARRAY)
+    cee_list_iterate(j->value.array, &max, deepest_elem);
+  else if (j->t == CEE_JSON_OBJECT)
+    cee_map_iterate(j->value.object, &max, deepest_value);
+  return max + 1;
+}
+
 /*
  * compute how many bytes are needed to serialize cee_json as a string
  */
@@ -1549,7 +1573,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
 
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /* one more than what is pushed: printing stops when the stack is full */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, nesting(j) + 1);
   push (st, 0, false, sp, j);
 
   uintptr_t offset = 0;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 789077f..9421874 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -12,7 +12,7 @@ struct counter {
   uintptr_t next;
   struct cee_list * array;
   struct cee_map  * object;
-  char tabs;
+  uintptr_t tabs;
   char more_siblings;
 };
 
@@ -68,7 +68,7 @@ static void pad (uintptr_t * offp, char * buf, struct counter * cnt,
   
   uintptr_t offset = *offp;
   if (buf) {
-    int i;
+    uintptr_t i;
     for (i = 0; i < cnt->tabs; i++)
       buf[offset + i] = '\t';
   }
@@ -177,6 +177,30 @@ static void str_append(char * out, uintptr_t *offp, char *begin, unsigned len) {
   *offp = offset;
 }
 
+/*
+ * the number of nested values of a cee_json, itself included
+ */
+static uintptr_t nesting (struct cee_json *j);
+
+static int deepest_elem (void *ctx, void *elem, int idx) {
+  uintptr_t n = nesting(elem), *max = ctx;
+  if (n > *max) *max = n;
+  return 0;
+}
+
+static int deepest_value (void *ctx, void *key, void *value) {
+  return deepest_elem(ctx, value, 0);
+}
+
+static uintptr_t nesting (struct cee_json *j) {
+  uintptr_t max = 0;
+  if (j->t == CEE_JSON_ARRAY)
+    cee_list_iterate(j->value.array, &max, deepest_elem);
+  else if (j->t == CEE_JSON_OBJECT)
+    cee_map_iterate(j->value.object, &max, deepest_value);
+  return max + 1;
+}
+
 /*
  * compute how many bytes are needed to serialize cee_json as a string
  */
@@ -187,7 +211,8 @@ ssize_t cee_json_snprint (struct cee_state *st, char *buf, size_t size, struct c
   struct counter * ccnt;
   uintptr_t incr = 0;
   
-  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, 500);
+  /* one more than what is pushed: printing stops when the stack is full */
+  struct cee_stack *sp = cee_stack_mk_e(st, CEE_DP_NOOP, nesting(j) + 1);
   push (st, 0, false, sp, j);
   
   uintptr_t offset = 0;
-- 
2.43.0


From 120caedd061daea053b721ec0d8f265783588c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 24/75] fix: cee_json_asprint allocates room for the terminator

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/snprint.c          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index d59e3f2..4697ec3 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1742,7 +1742,7 @@ ssize_t
 cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct cee_json *j,
                  enum cee_json_fmt f)
 {
-  size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
+  size_t buf_size = cee_json_snprint(st, NULL, 0, j, f) + 1;
   char *buf = cee_block_mk_nonzero(st, buf_size);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
diff --git a/cee-json/snprint.c b/cee-json/snprint.c
index 9421874..189b1d3 100644
--- a/cee-json/snprint.c
+++ b/cee-json/snprint.c
@@ -380,7 +380,7 @@ ssize_t
 cee_json_asprint(struct cee_state *st, char **buf_p, size_t *buf_size_p, struct cee_json *j, 
                  enum cee_json_fmt f)
 {
-  size_t buf_size = cee_json_snprint(st, NULL, 0, j, f);
+  size_t buf_size = cee_json_snprint(st, NULL, 0, j, f) + 1;
   char *buf = cee_block_mk_nonzero(st, buf_size);
   if (buf_size_p) *buf_size_p = buf_size;
   *buf_p = buf;
-- 
2.43.0


From 02474d35d810392b57acb38f40a22a81b9369188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 25/75] fix: cee_json_listify and cee_json_object_append work
 for values of every type

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 4697ec3..c5483c2 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -277,7 +277,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -648,7 +648,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* constants belong to no state, use the state of the object */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 2);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
diff --git a/cee-json/value.c b/cee-json/value.c
index da17aab..fccd03b 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -53,7 +53,7 @@ struct cee_json* cee_json_listify(struct cee_json *j)
   case CEE_JSON_ARRAY:
     return j;
   case CEE_JSON_OBJECT: {
-    struct cee_state *state = cee_get_state(cee_json_to_str(j));
+    struct cee_state *state = cee_get_state(cee_json_to_object(j));
     struct cee_json *list = cee_json_array_mk(state, 1);
     cee_json_array_append(list, j);
     return list;
@@ -424,7 +424,9 @@ void cee_json_object_append(struct cee_json *j, char *key, struct cee_json *v) {
         cee_json_array_append(old_value, v);
     }
     else {
-      struct cee_json *llist = cee_json_listify(old_value);
+      /* constants belong to no state, use the state of the object */
+      struct cee_json *llist = cee_json_array_mk(cee_get_state(cee_json_to_object(j)), 2);
+      cee_json_array_append(llist, old_value);
       if (cee_json_to_array(v))
         cee_json_array_concat(llist, v);
       else
-- 
2.43.0


From 6eea9e26d3f4c323a94b5ec3ae2073d5b4e13386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 26/75] fix: cee_json_array_concat of an array with itself ends

---
 cee-json/release/cee-json.c | 4 ++--
 cee-json/value.c            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index c5483c2..2c81aa4 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -845,8 +845,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  size_t i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
diff --git a/cee-json/value.c b/cee-json/value.c
index fccd03b..3f6a63b 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -621,8 +621,8 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
   if (!d || !s)
     cee_segfault();
 
-  int i;
-  for (i = 0; i < cee_list_size(s); i++)
+  size_t i, n = cee_list_size(s);
+  for (i = 0; i < n; i++)
     cee_list_append(d, s->a[i]);
 }
 
-- 
2.43.0


From 9a8648dec6b092844fb4bdc2a0f53438ca2a0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 27/75] fix: cee_json_select takes field names from its
 arguments

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 2c81aa4..ac04721 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1044,7 +1044,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
diff --git a/cee-json/value.c b/cee-json/value.c
index 3f6a63b..f0b9b82 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -820,7 +820,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
         }
         /* Common path. */
         if (tlen+len > JSEL_MAX_TOKEN) goto notfound;
-        memcpy(token+tlen,buf,len);
+        memcpy(token+tlen,s,len);
         tlen += len;
         p++;
         continue;
-- 
2.43.0


From eb07c8db51272f231fc7eded43449e79406b4f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 28/75] fix: the selector :n accepts every number

---
 cee-json/release/cee-json.c | 2 +-
 cee-json/value.c            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index ac04721..f733f63 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1005,7 +1005,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && NULL == cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
diff --git a/cee-json/value.c b/cee-json/value.c
index f0b9b82..0ee1849 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -781,7 +781,7 @@ struct cee_json* cee_json_select(struct cee_json *o, char *fmt, ...) {
           goto notfound;
       } else if (next == JSEL_TYPECHECK) {
         if (token[0] == 's' && o->t != CEE_JSON_STRING) goto notfound;
-        if (token[0] == 'n' && o->t != CEE_JSON_I64) goto notfound;
+        if (token[0] == 'n' && NULL == cee_json_to_boxed(o)) goto notfound;
         if (token[0] == 'o' && o->t != CEE_JSON_OBJECT) goto notfound;
         if (token[0] == 'a' && o->t != CEE_JSON_ARRAY) goto notfound;
         if (token[0] == 'b' && o->t != CEE_JSON_BOOLEAN) goto notfound;
-- 
2.43.0


From 3c8642cdc923f9e16edd5cdb64346a59410c9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 29/75] fix: cee_json_to_intx rejects values that do not fit an
 int

---
 cee-json/release/cee-json.c | 5 ++++-
 cee-json/value.c            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index f733f63..451b88a 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -394,7 +394,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if ((int)i != i)
+      return EINVAL;
+    *r = (int)i;
     return 0;
   }
   else
diff --git a/cee-json/value.c b/cee-json/value.c
index 0ee1849..ab2647d 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -170,7 +170,10 @@ int cee_json_to_doublex (struct cee_json *p, double *r) {
 
 int cee_json_to_intx (struct cee_json *p, int *r) {
   if (p->t == CEE_JSON_I64) {
-    *r = (int)cee_boxed_to_i64(p->value.boxed);
+    int64_t i = cee_boxed_to_i64(p->value.boxed);
+    if ((int)i != i)
+      return EINVAL;
+    *r = (int)i;
     return 0;
   }
   else
-- 
2.43.0


From 6819e5955d9439b4faebf487fd4ef3c458d8b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 30/75] fix: a JSON constant stays valid while it is requested
 again

---
 release/cee.c | 3 ++-
 singleton.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index bdfd63a..53e3f42 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4032,7 +4032,8 @@ static void _cee_singleton_noop(void *p, enum cee_trace_action ta) {}
 
 struct cee_singleton * cee_singleton_init(void *s, uintptr_t tag, uintptr_t val) {
   struct _cee_singleton_header * b = (struct _cee_singleton_header* )s;
-  do{ memset(&b->cs, 0, sizeof(struct cee_sect)); } while(0);;
+  /* s is global/static, so it was zero: writing the same values again
+   * leaves it valid at any moment for all who use it */
   b->cs.trace = _cee_singleton_noop;
   b->cs.resize_method = CEE_RESIZE_WITH_IDENTITY;
   b->cs.mem_block_size = 0;
diff --git a/singleton.c b/singleton.c
index 00d8fea..d4b6cea 100644
--- a/singleton.c
+++ b/singleton.c
@@ -26,7 +26,8 @@ static void S(noop)(void *p, enum cee_trace_action ta) {}
 
 struct cee_singleton * cee_singleton_init(void *s, uintptr_t tag, uintptr_t val) {
   struct S(header) * b = (struct S(header)* )s;
-  ZERO_CEE_SECT(&b->cs);
+  /* s is global/static, so it was zero: writing the same values again
+   * leaves it valid at any moment for all who use it */
   b->cs.trace = S(noop);
   b->cs.resize_method = CEE_RESIZE_WITH_IDENTITY;
   b->cs.mem_block_size = 0;
-- 
2.43.0


From c1975ab68ea9a577261c35e617768c24b496d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 31/75] fix: cee_json_object_convert_to_i64 converts the member
 it is asked for

---
 cee-json/release/cee-json.c | 6 ++++--
 cee-json/value.c            | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 451b88a..85522da 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -578,12 +578,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
 
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    /* the old value may be shared, its state reclaims it */
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
diff --git a/cee-json/value.c b/cee-json/value.c
index ab2647d..d7abe39 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -354,12 +354,14 @@ bool cee_json_object_convert_to_i64(struct cee_json *j, char *key) {
   
   struct cee_json *old_val = cee_json_object_get(j, key);
   int64_t i64 = 0;
+  if (NULL == old_val)
+    return false;
   if (!cee_json_to_i64x(old_val, &i64))
     return true;
 
-  if (j->t == CEE_JSON_STRING && !str2i64(j->value.string->_, &i64)) {
+  if (old_val->t == CEE_JSON_STRING && !str2i64(old_val->value.string->_, &i64)) {
+    /* the old value may be shared, its state reclaims it */
     cee_json_object_set_i64(j, key, i64);
-    cee_del(old_val);
     return true;
   }
   return false;
-- 
2.43.0


From df1b7724f69ab0bc60d4d1376b1501c6caa12801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 32/75] fix: a failed cee_json_load_from_buffer deletes its
 state

---
 cee-json/release/cee-json.c | 1 +
 cee-json/value.c            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 85522da..09838f5 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -911,6 +911,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
diff --git a/cee-json/value.c b/cee-json/value.c
index d7abe39..3eac0f0 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -687,6 +687,7 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
   int line = 0;
   if( cee_json_parsex(st, buf, buf_size, &j, true, &line) ){
     fprintf(stderr, "failed to parse at %d\n", line);
+    cee_del(st);
     j = NULL;
   }
   return j;
-- 
2.43.0


From 8ccc498825998046ca3a3095e7e92981cf658de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 33/75] fix: loading a JSON file reports failing and continues
 short reads

---
 cee-json/release/cee-json.c | 30 ++++++++++++++++++++++++------
 cee-json/value.c            | 28 +++++++++++++++++++++++-----
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 09838f5..60459bf 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -859,17 +859,35 @@ void cee_json_array_concat (struct cee_json *dest, struct cee_json *src)
  * this function assume the file pointer points to the begin of a file
  */
 struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
-                                           int fd, bool force_eof,
+                                           int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  if (fstat(fd, &buf) < 0) {
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  size_t size = buf.st_size, used = 0;
+  char * b = malloc(size + 1);
+  if (NULL == b)
+    cee_segfault();
+
+  while (used < size) {
+    ssize_t n = read(fd, b + used, size - used);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n < 0) {
+      fprintf(stderr, "%s\n", strerror(errno));
+      free(b);
+      return NULL;
+    }
+    if (n == 0)
+      break;
+    used += n;
+  }
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, used, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
diff --git a/cee-json/value.c b/cee-json/value.c
index 3eac0f0..e17cbe8 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -638,14 +638,32 @@ struct cee_json * cee_json_load_from_fileno(struct cee_state * st,
                                            int fd, bool force_eof, 
                                            int * error_at_line) {
   struct stat buf;
-  fstat(fd, &buf);
-  off_t size = buf.st_size;
-  char * b = malloc(size);
-  read(fd, b, size);
+  if (fstat(fd, &buf) < 0) {
+    fprintf(stderr, "%s\n", strerror(errno));
+    return NULL;
+  }
+  size_t size = buf.st_size, used = 0;
+  char * b = malloc(size + 1);
+  if (NULL == b)
+    cee_segfault();
+
+  while (used < size) {
+    ssize_t n = read(fd, b + used, size - used);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n < 0) {
+      fprintf(stderr, "%s\n", strerror(errno));
+      free(b);
+      return NULL;
+    }
+    if (n == 0)
+      break;
+    used += n;
+  }
 
   int line = 0;
   struct cee_json * j = NULL;
-  if( cee_json_parsex(st, b, size, &j, true, &line) ){
+  if( cee_json_parsex(st, b, used, &j, force_eof, &line) ){
     /*  report error */
     fprintf(stderr, "failed to parse at %d\n", line);
     if( error_at_line )
-- 
2.43.0


From ead4214c818ee975bf40099a3b9bc27a54ddd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 34/75] fix: loading a JSON file that cannot be opened reports
 failure

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/value.c            | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 60459bf..55d8c82 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -910,12 +910,12 @@ struct cee_json * cee_json_load_from_FILE(struct cee_state * st,
  * 
  */
 struct cee_json* cee_json_load_from_file_path(struct cee_state *st,
-                                              char *file_path, bool force_eof,
+                                              char *file_path, bool force_eof, 
                                               int *error_at_line){
   FILE *fp = fopen(file_path, "r");
   if( fp == NULL ){
-     fprintf(stderr, "failed to open %s", file_path);
-     cee_segfault();
+     fprintf(stderr, "failed to open %s\n", file_path);
+     return NULL;
   }
   struct cee_json *ret = cee_json_load_from_FILE(st, fp, force_eof, error_at_line);
   fclose(fp);
diff --git a/cee-json/value.c b/cee-json/value.c
index e17cbe8..cbfc465 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -690,8 +690,8 @@ struct cee_json* cee_json_load_from_file_path(struct cee_state *st,
                                               int *error_at_line){
   FILE *fp = fopen(file_path, "r");
   if( fp == NULL ){
-     fprintf(stderr, "failed to open %s", file_path);
-     cee_segfault();
+     fprintf(stderr, "failed to open %s\n", file_path);
+     return NULL;
   }
   struct cee_json *ret = cee_json_load_from_FILE(st, fp, force_eof, error_at_line);
   fclose(fp);
-- 
2.43.0


From e190e6bdf0f4167d1780fbbf2412e49b2f40c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 35/75] fix: saving a JSON document continues interrupted and
 short writes

---
 cee-json/release/cee-json.c | 18 +++++++++++++-----
 cee-json/value.c            | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 55d8c82..19711f1 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -936,13 +936,21 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
 }
 
 bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, int how) {
-  size_t s = cee_json_snprint (st, NULL, 0, j, how);
+  size_t s = cee_json_snprint (st, NULL, 0, j, how), done = 0;
   char * p = malloc(s+1);
+  if (NULL == p)
+    cee_segfault();
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
-    fprintf(stderr, "%s", strerror(errno));
-    free(p);
-    return false;
+  while (done < s) {
+    ssize_t n = write(fd, p + done, s - done);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0) {
+      fprintf(stderr, "%s\n", strerror(errno));
+      free(p);
+      return false;
+    }
+    done += n;
   }
   free(p);
   return true;
diff --git a/cee-json/value.c b/cee-json/value.c
index cbfc465..1fcc9d3 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -712,13 +712,21 @@ struct cee_json *cee_json_load_from_buffer(char *buf, size_t buf_size){
 }
 
 bool cee_json_save_fileno(struct cee_state * st, struct cee_json * j, int fd, int how) {
-  size_t s = cee_json_snprint (st, NULL, 0, j, how);
+  size_t s = cee_json_snprint (st, NULL, 0, j, how), done = 0;
   char * p = malloc(s+1);
+  if (NULL == p)
+    cee_segfault();
   cee_json_snprint (st, p, s+1, j, how);
-  if( write(fd, p, s) != s ){
-    fprintf(stderr, "%s", strerror(errno));
-    free(p);
-    return false;
+  while (done < s) {
+    ssize_t n = write(fd, p + done, s - done);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0) {
+      fprintf(stderr, "%s\n", strerror(errno));
+      free(p);
+      return false;
+    }
+    done += n;
   }
   free(p);
   return true;
-- 
2.43.0


From 68014f22e6271364c51979e7826c94eddec877fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 36/75] fix: merging JSON files reports failing writes,
 mismatched inputs and releases what it opened

---
 cee-json/cee_json_merge.c   | 52 ++++++++++++++++++++-----------------
 cee-json/release/cee-json.c | 52 ++++++++++++++++++++-----------------
 2 files changed, 56 insertions(+), 48 deletions(-)

diff --git a/cee-json/cee_json_merge.c b/cee-json/cee_json_merge.c
index 8071a49..bc0a6d2 100644
--- a/cee-json/cee_json_merge.c
+++ b/cee-json/cee_json_merge.c
@@ -5,44 +5,44 @@
 #endif
 
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
-  static char perror_buf[128] = {0};
+  char perror_buf[128] = {0};
+  int ret = 1;
 
-  FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
-  if( !f0 ){
-    snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[0]);
-    perror(perror_buf);
+  if( json_file_count < 1 )
     return 1;
-  }
+
+  FILE *fn, *f_combined;
   struct cee_state *state = cee_state_mk(100);
-  int line = -1;
-  struct cee_json *j0, *jn;
-  j0 = cee_json_load_from_FILE(state, f0, true, &line);
-  if( j0 == NULL ){
-    fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
-  }
+  struct cee_json *j0 = NULL, *jn;
 
-  for( int i = 1; i < json_file_count; i++ ){
+  for( int i = 0; i < json_file_count; i++ ){
     fn = fopen(json_files[i], "r");
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      goto done;
     }
-    line = -1;
+    int line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
+    fclose(fn);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      goto done;
     }
-    cee_json_merge(j0, jn);
-    fclose(fn);
+    if( jn->t != CEE_JSON_OBJECT ){
+      fprintf(stderr, "%s does not contain an object\n", json_files[i]);
+      goto done;
+    }
+    if( j0 == NULL )
+      j0 = jn;
+    else
+      cee_json_merge(j0, jn);
   }
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -51,9 +51,13 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
-  fclose(f_combined);
-  fclose(f0);
+  if( cee_json_save(state, j0, f_combined, 1) )
+    ret = 0;
+  if( fclose(f_combined) != 0 ){
+    perror(merged);
+    ret = 1;
+  }
+done:
   cee_del(state);
-  return 0;
+  return ret;
 }
diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 19711f1..3ce4199 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -2343,44 +2343,44 @@ enum token cee_json_next_token(struct cee_state * st, struct tokenizer * t) {
 
 
 int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
-  static char perror_buf[128] = {0};
+  char perror_buf[128] = {0};
+  int ret = 1;
 
-  FILE *f0 = fopen(json_files[0], "r"), *fn, *f_combined;
-  if( !f0 ){
-    snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[0]);
-    perror(perror_buf);
+  if( json_file_count < 1 )
     return 1;
-  }
+
+  FILE *fn, *f_combined;
   struct cee_state *state = cee_state_mk(100);
-  int line = -1;
-  struct cee_json *j0, *jn;
-  j0 = cee_json_load_from_FILE(state, f0, true, &line);
-  if( j0 == NULL ){
-    fprintf(stderr, "error at %s:%d\n", json_files[0], line);
-    return 1;
-  }
+  struct cee_json *j0 = NULL, *jn;
 
-  for( int i = 1; i < json_file_count; i++ ){
+  for( int i = 0; i < json_file_count; i++ ){
     fn = fopen(json_files[i], "r");
     if( !fn ){
       snprintf(perror_buf, sizeof perror_buf, "fopen(%s)", json_files[i]);
       perror(perror_buf);
-      return 1;
+      goto done;
     }
-    line = -1;
+    int line = -1;
     jn = cee_json_load_from_FILE(state, fn, true, &line);
+    fclose(fn);
     if( jn == NULL ){
       fprintf(stderr, "error at %s:%d\n", json_files[i], line);
-      return 1;
+      goto done;
     }
-    cee_json_merge(j0, jn);
-    fclose(fn);
+    if( jn->t != CEE_JSON_OBJECT ){
+      fprintf(stderr, "%s does not contain an object\n", json_files[i]);
+      goto done;
+    }
+    if( j0 == NULL )
+      j0 = jn;
+    else
+      cee_json_merge(j0, jn);
   }
 
   f_combined = fopen(merged, "w");
   if( !f_combined ){
     perror(merged);
-    return 1;
+    goto done;
   }
   struct cee_json *inputs = cee_json_array_mk(state, json_file_count);
   cee_json_object_set(j0, "originals", inputs);
@@ -2389,11 +2389,15 @@ int cee_json_merge_all(char **json_files, int json_file_count, char *merged){
     cee_json_array_append(inputs, a);
   }
 
-  cee_json_save(state, j0, f_combined, 1);
-  fclose(f_combined);
-  fclose(f0);
+  if( cee_json_save(state, j0, f_combined, 1) )
+    ret = 0;
+  if( fclose(f_combined) != 0 ){
+    perror(merged);
+    ret = 1;
+  }
+done:
   cee_del(state);
-  return 0;
+  return ret;
 }
 
 #endif
-- 
2.43.0


From fc62f51f66054437c9c11e18873f1dd157a1921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 37/75] fix: stop when a list cannot grow

---
 list.c        | 4 ++++
 release/cee.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/list.c b/list.c
index 4264124..14f68ee 100644
--- a/list.c
+++ b/list.c
@@ -77,6 +77,8 @@ void cee_list_append (struct cee_list *v, void *e) {
   if (m->size == m->capacity) {
     m->capacity = capacity + extra_cap;    
     void *a = realloc(v->a, m->capacity * sizeof(void *));
+    if (!a)
+      cee_segfault(); /* run out of memory */
     v->a = a;
   }
   v->a[m->size] = e;
@@ -91,6 +93,8 @@ void cee_list_insert(struct cee_list *v, int index, void *e) {
   if (m->size == m->capacity) {
     m->capacity = capacity + extra_cap;
     void *a = realloc(v->a, m->capacity * sizeof(void *));
+    if (!a)
+      cee_segfault(); /* run out of memory */
     v->a = a;
   }
   int i;
diff --git a/release/cee.c b/release/cee.c
index 53e3f42..ee0fadf 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -3818,6 +3818,8 @@ void cee_list_append (struct cee_list *v, void *e) {
   if (m->size == m->capacity) {
     m->capacity = capacity + extra_cap;
     void *a = realloc(v->a, m->capacity * sizeof(void *));
+    if (!a)
+      cee_segfault(); /* run out of memory */
     v->a = a;
   }
   v->a[m->size] = e;
@@ -3832,6 +3834,8 @@ void cee_list_insert(struct cee_list *v, int index, void *e) {
   if (m->size == m->capacity) {
     m->capacity = capacity + extra_cap;
     void *a = realloc(v->a, m->capacity * sizeof(void *));
+    if (!a)
+      cee_segfault(); /* run out of memory */
     v->a = a;
   }
   int i;
-- 
2.43.0


From b52d3ca2f446bf7b993b09bb425616c5d22a7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 38/75] fix: an unbound SQL parameter leaves no open statement

---
 sqlite3/cee-sqlite3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 51fc7ea..b2ca6b4 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -206,6 +206,9 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
         if( bound[i] == 0 ){ // this parameter is not bound.
           const char *parameter = sqlite3_bind_parameter_name(sql_stmt, i+1);
           cee_json_set_error(ret, "SQL:%s:'%s' the %dth parameter '%s' is not bound", cs->db_name, sql, i+1, parameter);
+          sqlite3_finalize(sql_stmt);
+          if( sql_stmt_pp )
+            *sql_stmt_pp = NULL;
           return SQLITE_ERROR;
         }
       }
-- 
2.43.0


From ff5efc6c1964ffa8a1e13d2a46b2dfeb03003c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 39/75] fix: update or insert inserts only when the lookup
 found no row

---
 sqlite3/cee-sqlite3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index b2ca6b4..a049b0d 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -260,6 +260,9 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
     rc = cee_sqlite3_bind_run_sql(cs, info, data, update, NULL, status);
     if( rc != SQLITE_DONE )
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, update, sqlite3_errmsg(db));
+  }else if( rc != SQLITE_DONE ){
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   }else{
     char *insert = stmts->insert_dynamic ? stmts->insert_stmt_x : stmts->insert_stmt;
     rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
-- 
2.43.0


From d65b9125469703ebb58bad0dafadf740791cc028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 40/75] fix: row ids are 64-bit and the id of an insertion is
 set also without a status

---
 sqlite3/cee-sqlite3.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index a049b0d..6fa4bc2 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -270,7 +270,7 @@ int cee_sqlite3_update_or_insert(struct cee_sqlite3 *cs,
       cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                          cs->db_name, rc, insert, sqlite3_errmsg(db));
     else if( result ){
-      int row_id = sqlite3_last_insert_rowid(db);
+      sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
       cee_json_object_set_i64(result, "last_insert_rowid", row_id);
     }
   }
@@ -293,8 +293,8 @@ int cee_sqlite3_insert(struct cee_sqlite3 *cs,
   rc = cee_sqlite3_bind_run_sql(cs, info, data, insert, NULL, status);
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, insert, sqlite3_errmsg(db));
-  else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+  else{
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     if( key )
       cee_json_object_set_i64(result, key, row_id);
     else
@@ -596,7 +596,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
                        cs->db_name, rc, insert, sqlite3_errmsg(db));
   else if( result ){
-    int row_id = sqlite3_last_insert_rowid(db);
+    sqlite3_int64 row_id = sqlite3_last_insert_rowid(db);
     cee_json_object_set_i64(*status, "last_insert_rowid", row_id);
   }
 
-- 
2.43.0


From dc7c7dd16535fc008356b4d3394d6f54a1eca55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 41/75] fix: a failed deletion reports no deleted rows

---
 sqlite3/cee-sqlite3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 6fa4bc2..037a1a6 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -322,8 +322,8 @@ int cee_sqlite3_delete(struct cee_sqlite3 *cs,
   rc = cee_sqlite3_bind_run_sql(cs, info, data, delete_sql, NULL, status);
   if( rc != SQLITE_DONE )
     cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
-		       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
-  if( key )
+                       cs->db_name, rc, delete_sql, sqlite3_errmsg(db));
+  else if( key )
     cee_json_object_set_i64(result, key, sqlite3_changes(cs->db));
   else
     cee_json_object_set_i64(result, "deleted", sqlite3_changes(cs->db));
-- 
2.43.0


From 00fdd3b7f466d4c7f84f85f2d2a986cb93f71e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 42/75] fix: report the rows an update changed and a failed
 lookup before it

---
 sqlite3/cee-sqlite3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 037a1a6..493da5f 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -373,8 +373,10 @@ int cee_sqlite3_update_if_exists(struct cee_sqlite3 *cs,
                          cs->db_name, rc, update, sqlite3_errmsg(db));
     else if( status )
       cee_json_object_set_i64(*status, "updated_rows",
-                              sqlite3_total_changes(db));
-  }
+                              sqlite3_changes(db));
+  }else if( rc != SQLITE_DONE )
+    cee_json_set_error(status, "SQL:%s:[%d]'%s' -> %s",
+                       cs->db_name, rc, stmts->select_stmt, sqlite3_errmsg(db));
   return rc;
 }
 
-- 
2.43.0


From df4ba4c4f1a7d52b436311aa27e5785df0ce57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 43/75] fix: a query that fails at any row reports it and
 closes its statement

---
 sqlite3/cee-sqlite3.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 493da5f..56790e7 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -427,15 +427,7 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *my_status = NULL;
   
   int rc = cee_sqlite3_bind_run_sql(cs, info, data, sql, &stmt, &my_status);
-  if( rc != SQLITE_ROW && rc != SQLITE_DONE ){
-    if( status ){
-      accept_result(state, status, &result);
-      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
-      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
-    }
-    return rc;
-  }
-  while( rc != SQLITE_DONE ){
+  while( rc == SQLITE_ROW ){
     if( f(cls, state, info, stmt) ){
       sqlite3_finalize(stmt);
       return SQLITE_DONE;
@@ -443,6 +435,14 @@ int cee_sqlite3_select_iter(struct cee_sqlite3 *cs,
     rc = sqlite3_step(stmt);
   }
   sqlite3_finalize(stmt);
+  if( rc != SQLITE_DONE ){
+    /* an array of rows has no place for an error, the result code reports it */
+    if( status && NULL == *status ){
+      accept_result(state, status, &result);
+      cee_json_object_append(*status, "error", cee_json_select(my_status, ".error"));
+      cee_json_set_error(status, "SQL:%s:[%d]'%s' %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+    }
+  }
   return rc;
 }
 
-- 
2.43.0


From f2c3d6e9fde2393f3fa647ff8b7c663a6ea2c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 44/75] fix: named selections store rows under their name and
 keep the status on errors

---
 sqlite3/cee-sqlite3.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 56790e7..20eaa9d 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -979,12 +979,13 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   int ret = cee_sqlite3_select1(cs, info, data, sql, &one);
 
   if( cee_json_select(one, ".error") && status ){
-    *status = one;
+    accept_result(cs->state, status, &result);
+    cee_json_object_append(*status, "error", cee_json_select(one, ".error"));
     return ret;
   }
 
   accept_result(cs->state, status, &result);
-  if( status ){
+  if( status && one ){
     struct cee_json *old = cee_json_object_get(*status, key);
     if( old )
       cee_json_merge(old, one);
@@ -1006,20 +1007,14 @@ cee_sqlite3_select_as(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *array = NULL;
   int ret = cee_sqlite3_select(cs, info, data, sql, &array);
 
+  accept_result(cs->state, status, &result);
   if( cee_json_select(array, ".error") && status ){
-    if( *status )
-      cee_json_object_append(*status, "error", cee_json_select(array, ".error"));
-    else
-      *status = array;
+    cee_json_object_append(*status, "error", cee_json_select(array, ".error"));
     return ret;
   }
 
-  if( status ){
-    if( *status )
-      cee_json_object_append(*status, key, array);
-    else
-      *status = array;
-  }
+  if( status )
+    cee_json_object_append(*status, key, array);
   return ret;
 }
 
-- 
2.43.0


From dca02effc1000d48622bc04dd198d0de6843444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 45/75] fix: JSON input with values of the wrong type is not
 stored

---
 sqlite3/cee-sqlite3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 20eaa9d..3155dc3 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -840,7 +840,9 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
     stmts->insert_stmt_x = (char*)cee_str_mk(state, "insert into %s (%s) values (%s)",
                                              stmts->table_name, aaa.insert_colums, aaa.insert_values);
 
-  int rc = f (cs, aaa.info, data, stmts, status);
+  int rc = SQLITE_ERROR;
+  if( NULL == cee_json_select(aaa.errors, "[0]") )
+    rc = f (cs, aaa.info, data, stmts, status);
 
   struct cee_json *debug = cee_json_object_mk(state);
   if( stmts->update_template ){
-- 
2.43.0


From 49103dc7d7b3d79ebb6684e5ad76fb02ac35d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 46/75] fix: a query driven by JSON returns its rows

---
 sqlite3/cee-sqlite3.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 3155dc3..77304be 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -780,6 +780,8 @@ int cee_sqlite3_bind_data_from_json(struct cee_sqlite3_bind_info *info,
 /*
  * @param json the input json
  * using the input json to populate data and run opcode
+ *
+ * the status of a query is the array of its rows
  */
 int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
                                struct cee_json *json,
@@ -806,7 +808,8 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
   };
 
   struct cee_json *result = NULL;
-  accept_result(state, status, &result);
+  if( f != cee_sqlite3_select_wrapper )
+    accept_result(state, status, &result);
 
   aaa.errors = cee_json_array_mk(state, 1);
   aaa.unused = cee_json_array_mk(state, 10);
@@ -843,6 +846,8 @@ int cee_sqlite3_generic_opcode(struct cee_sqlite3 *cs,
   int rc = SQLITE_ERROR;
   if( NULL == cee_json_select(aaa.errors, "[0]") )
     rc = f (cs, aaa.info, data, stmts, status);
+  else if( status && NULL == *status )
+    accept_result(state, status, &result);
 
   struct cee_json *debug = cee_json_object_mk(state);
   if( stmts->update_template ){
-- 
2.43.0


From 035059d32013a11ad8fc4c60c315568209dad94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 47/75] fix: binding generated from JSON holds every key with
 its own value

---
 sqlite3/cee-sqlite3.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 77304be..9ebd043 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1040,16 +1040,18 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     if( info[i].var_name ) continue;
     switch( val->t ){
     case CEE_JSON_I64:
-      if ( cee_json_to_intx(val, &info[i].data.i))
+      if ( cee_json_to_i64x(val, &info[i].data.i64))
         cee_segfault();
-      info[i].type = CEE_SQLITE3_INT;
+      info[i].type = CEE_SQLITE3_INT64;
       break;
     case CEE_JSON_STRING:
       info[i].data.value = cee_json_to_str(val)->_;
       info[i].type = CEE_SQLITE3_TEXT;
       break;
     case CEE_JSON_NULL:
-      return 0;
+      info[i].data.is_null = 1;
+      info[i].type = CEE_SQLITE3_TEXT;
+      break;
     default:
       fprintf(stderr, "%d", val->t);
       cee_segfault();
@@ -1057,6 +1059,7 @@ static int f (void *cxt, struct cee_str *key, struct cee_json *val) {
     info[i].col_name = cee_str_mk(is->state,  "%s", key->_)->_;
     info[i].var_name = cee_str_mk(is->state, "@%s", key->_)->_;
     info[i].data.has_value = 1;
+    break;
   }
   return 0;
 }
-- 
2.43.0


From 6340ea389eeceaeb59eae699b8c9b36ee84bac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 48/75] fix: inserting a JSON array reports failing rows and
 takes any number of keys

---
 sqlite3/cee-sqlite3.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 9ebd043..63f8de7 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1115,7 +1115,7 @@ cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
 struct insert_columns_values {
   struct cee_str *insert_colums;
   struct cee_str *insert_values;
-  struct cee_sqlite3_bind_info info [50];
+  struct cee_sqlite3_bind_info *info;
   int idx;
 };
 
@@ -1170,6 +1170,8 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   int size;
 
   struct insert_columns_values one_ctx = {0};
+  one_ctx.info = (void *)cee_block_mk(state, (cee_map_size(cee_json_to_object(one)) + 1)
+                                      * sizeof(struct cee_sqlite3_bind_info));
   one_ctx.insert_colums = cee_str_mk(state, "");
   one_ctx.insert_values = cee_str_mk(state, "");
   cee_json_object_iterate(one, &one_ctx, collect_colums_values);
@@ -1186,12 +1188,12 @@ insert_one_json_object (void *ctx, struct cee_json *one, int idx) {
   char *err_msg = NULL;
   fprintf(stderr, "%s\n", sql->_);
   struct cee_json *status = NULL;
-  cee_sqlite3_insert(p->cs, one_ctx.info, NULL, sql->_, &status, NULL, NULL);
+  int rc = cee_sqlite3_insert(p->cs, one_ctx.info, NULL, sql->_, &status, NULL, NULL);
   char *buf; size_t len;
   cee_json_asprint(state, &buf, &len, status, 0);
   fprintf(stderr, "%s\n", buf);
   cee_del(state);
-  return 0;
+  return rc == SQLITE_DONE ? 0 : rc;
 }
 
 int
-- 
2.43.0


From 94aab81d08fcf7877baaf966e3765fef51958a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 49/75] fix: a database that cannot be opened is reported and
 closed

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 63f8de7..9ca1c49 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -12,7 +12,8 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
   else {
     rc = sqlite3_open(db_file, &db);
     if( rc != SQLITE_OK ){
-      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(*db_p));
+      fprintf(stderr, "open %s: %s\n", db_file, sqlite3_errmsg(db));
+      sqlite3_close(db);
       db = NULL;
       goto my_ret;
     }
-- 
2.43.0


From ac6a485d4e0d0ed6e944322bd562efbead9e7304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 50/75] fix: inserting from JSON works without a status

---
 sqlite3/cee-sqlite3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 9ca1c49..2646cc3 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -905,7 +905,8 @@ int cee_sqlite3_insert_op(struct cee_sqlite3 *cs,
                                       op->stmts,
                                       status,
                                       cee_sqlite3_insert_wrapper);
-  cee_json_object_rename(*status, "last_insert_rowid", "id");
+  if( status )
+    cee_json_object_rename(*status, "last_insert_rowid", "id");
   return rc;
 }
 
-- 
2.43.0


From a7fc7d7b858fabb2d8634910b36ac16635c78d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 51/75] fix: the connection that dropped all tables forgets
 them

---
 sqlite3/cee-sqlite3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index 2646cc3..fbc7583 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -68,7 +68,7 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
 void cee_sqlite3_drop_all_tables(sqlite3 **db, char *db_file){
   char *stmt = "PRAGMA writable_schema = 1;\n"
     "delete from sqlite_master where type in ('table', 'index', 'trigger');\n"
-    "PRAGMA writable_schema = 0;\n";
+    "PRAGMA writable_schema = RESET;\n";
   cee_sqlite3_init_db(db, db_file, stmt, true);
 }
 
-- 
2.43.0


From 544d32ad0787f2257c163d32827c4437165608f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 52/75] fix: a value that cannot be bound is reported instead
 of stored as null

---
 sqlite3/cee-sqlite3.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index fbc7583..bdbca5d 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -191,17 +191,24 @@ int cee_sqlite3_bind_run_sql(struct cee_sqlite3 *cs,
           sqlite3_bind_int64(sql_stmt, idx, data_p->i64);
           break;
         case CEE_SQLITE3_TEXT:
-          sqlite3_bind_text(sql_stmt, idx, data_p->value,
+          rc = sqlite3_bind_text(sql_stmt, idx, data_p->value,
                             data_p->size == 0 ? -1 : data_p->size,
                             SQLITE_STATIC);
           break;
         case CEE_SQLITE3_BLOB:
-          sqlite3_bind_blob(sql_stmt, idx, data_p->value,
+          rc = sqlite3_bind_blob(sql_stmt, idx, data_p->value,
                             data_p->size, SQLITE_STATIC);
           break;
         default:
           cee_segfault();
         }
+        if( rc != SQLITE_OK ){
+          cee_json_set_error(ret, "SQL:%s:[%d]'%s' -> %s", cs->db_name, rc, sql, sqlite3_errmsg(db));
+          sqlite3_finalize(sql_stmt);
+          if( sql_stmt_pp )
+            *sql_stmt_pp = NULL;
+          return rc;
+        }
       }
       for( int i = 0; i < total_parameters; i++ ){
         if( bound[i] == 0 ){ // this parameter is not bound.
-- 
2.43.0


From 1653f1aa461a00db0c2b84bd8ac24f2b9d091bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 53/75] fix: the next integer is computed from the whole clause
 and failures are reported

---
 sqlite3/cee-sqlite3.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index bdbca5d..eff87f9 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -2,6 +2,7 @@
 #define _GNU_SOURCE
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <alloca.h>
 
 void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool transaction){
@@ -1096,27 +1097,31 @@ cee_json_to_bind_info(struct cee_json *input) {
 int
 cee_sqlite3_next_int(struct cee_sqlite3 *cs, char *int_column_name,
                      char *from_clause, struct cee_json **status) {
-  char qx[128];
-  snprintf(qx, sizeof qx, "select max(%s) as max_value %s;",
-           int_column_name, from_clause);
+  char *qx = cee_str_mk(cs->state, "select max(%s) as max_value %s;",
+                        int_column_name, from_clause)->_;
 
   struct cee_json *input = NULL, *max_value = NULL;
   cee_sqlite3_select1(cs, NULL, NULL, qx, &input);
+  cee_del(qx);
   if( cee_json_select(input, ".error") ){
-    *status = input;
+    if( status )
+      *status = input;
     return -1;
   }
 
   if( (max_value = cee_json_select(input, ".max_value:n")) ){
     int int_value = 0;
-    if( !cee_json_to_intx(max_value, &int_value) )
+    if( !cee_json_to_intx(max_value, &int_value) && int_value != INT_MAX )
       return int_value + 1;
   }else if( cee_json_select(input, ".max_value:!") ){
     /* no rows */
     return 1;
   }
 
-  *status = input;
+  if( status ){
+    *status = input;
+    cee_json_set_error(status, "SQL:%s: no next int of '%s'", cs->db_name, int_column_name);
+  }
   return -1;
 }
 
-- 
2.43.0


From 603156eed4d4f302c9b65404f8fa62818ede48df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 54/75] fix: blob values from JSON are refused also without an
 error list

---
 sqlite3/cee-sqlite3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index eff87f9..cf7015b 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -695,8 +695,9 @@ populate_usage(void *ctx, struct cee_str *key, struct cee_json *value) {
         break;
       case CEE_SQLITE3_BLOB:
         // decode the string as base64 encoding
-        cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
-                                   info[i].col_name);
+        if( p->errors )
+          cee_json_array_append_strf(p->errors, "'%s' should be blob and is not supported yet",
+                                     info[i].col_name);
         return 1;
       }
       return 0;
-- 
2.43.0


From ba32b9c3f5b8a8f2286becfc5519fc407c006ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 55/75] fix: joins bind values by their declared type

---
 sqlite3/join.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index e8c8e5f..52e0a05 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -32,7 +32,9 @@ static int join_one (void *ctx, void *elem, int idx) {
     }
     switch( value->t ){
       case CEE_JSON_I64:
-        if( cee_json_to_intx(value, &item->i) ){
+        if( info[i].type == CEE_SQLITE3_INT64
+            ? cee_json_to_i64x(value, &item->i64)
+            : info[i].type != CEE_SQLITE3_INT || cee_json_to_intx(value, &item->i) ){
           cee_json_object_set_strf(
             one, "error", "failed to convert json key %s's value to int",
             info[i].col_name);
@@ -40,7 +42,14 @@ static int join_one (void *ctx, void *elem, int idx) {
         }
         break; /* switch */
       case CEE_JSON_STRING:
+        if( info[i].type != CEE_SQLITE3_TEXT ){
+          cee_json_object_set_strf(
+            one, "error", "unsupported json key %s's value is a string",
+            info[i].col_name);
+          return 1; /* stop */
+        }
         item->value = cee_json_to_str(value)->_;
+        item->size = 0;
         break; /* switch */
       case CEE_JSON_NULL:
         cee_json_object_set_strf(
-- 
2.43.0


From bc44963c3fa403679c9280f48a7866ee0a5f9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 56/75] fix: other connections notice that all tables were
 dropped

---
 sqlite3/cee-sqlite3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index cf7015b..c9d5752 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -67,7 +67,9 @@ void cee_sqlite3_init_db(sqlite3 **db_p, char *db_file, char *sqlstmts, bool tra
 }
 
 void cee_sqlite3_drop_all_tables(sqlite3 **db, char *db_file){
-  char *stmt = "PRAGMA writable_schema = 1;\n"
+  /* creating a table changes the schema version, which other connections check */
+  char *stmt = "create table if not exists cee_drop_all_tables(x);\n"
+    "PRAGMA writable_schema = 1;\n"
     "delete from sqlite_master where type in ('table', 'index', 'trigger');\n"
     "PRAGMA writable_schema = RESET;\n";
   cee_sqlite3_init_db(db, db_file, stmt, true);
-- 
2.43.0


From d80bf54ddffa71c4adf09a7b6534f2388e8227e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 57/75] fix: a blob that cannot be allocated fails the query
 instead of crashing

---
 sqlite3/cee-sqlite3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index c9d5752..bf1db78 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -492,6 +492,8 @@ get_a_row(void *cls, struct cee_state *state,
     case SQLITE_BLOB: {
       size_t bytes = sqlite3_column_bytes(stmt, i);
       const void *data = sqlite3_column_blob(stmt, i);
+      if( data == NULL )
+        bytes = 0; /* out of memory, which the next step reports */
       single_value = cee_json_blob_mk (state, data, bytes);
       cee_json_object_set(obj, name, single_value);
     }
-- 
2.43.0


From bb8cc35088ac6a2807554aeaac38671472359adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 58/75] fix: escaping a control character advances by the six
 characters it writes

---
 cee-json/release/cee-json.c | 6 +++---
 cee-json/value.c            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cee-json/release/cee-json.c b/cee-json/release/cee-json.c
index 3ce4199..946b73b 100644
--- a/cee-json/release/cee-json.c
+++ b/cee-json/release/cee-json.c
@@ -1126,9 +1126,9 @@ size_t cee_json_escape_string(const char *s, size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't', j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        char u[8];
+        snprintf(u, sizeof u, "\\u%04x", c);
+        memcpy(dest + j, u, 6), j += 6;
       }else{
         dest[j] = c, j++;
       }
diff --git a/cee-json/value.c b/cee-json/value.c
index 1fcc9d3..395f95a 100644
--- a/cee-json/value.c
+++ b/cee-json/value.c
@@ -902,9 +902,9 @@ size_t cee_json_escape_string(const char *s,  size_t s_size,
     case '\t': dest[j] = '\\', dest[j+1] = 't',  j+= 2; break;
     default:
       if( '\x00' <= c && c <= '\x1f' ){
-        dest[j] = '\\', dest[j+1] = 'u';
-        snprintf(dest+j+2, dest_size - j - 2, "%04x", c);
-        j += 4;
+        char u[8];
+        snprintf(u, sizeof u, "\\u%04x", c);
+        memcpy(dest + j, u, 6), j += 6;
       }else{
         dest[j] = c, j++;
       }
-- 
2.43.0


From ad4bc702dd0e21800ffbc8420204d735ecfecd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 59/75] fix: looking up a variable continues outside a frame
 that has no variables

---
 env.c         | 2 +-
 release/cee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/env.c b/env.c
index ac5f3af..ea531b9 100644
--- a/env.c
+++ b/env.c
@@ -73,7 +73,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) ) 
       return ret;
     e = e->outer;
diff --git a/release/cee.c b/release/cee.c
index ee0fadf..6629a41 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -4563,7 +4563,7 @@ struct cee_env * cee_env_mk(struct cee_state * st, struct cee_env * outer, struc
 
 void * cee_env_find(struct cee_env * e, char * key) {
   struct cee_boxed * ret;
-  while (e && e->vars) {
+  while (e) {
     if ( (ret = cee_map_find(e->vars, key)) )
       return ret;
     e = e->outer;
-- 
2.43.0


From cdd8b791d8cf5169878834f4418a9480046eb488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 60/75] fix: an object can be referenced more than 65535 times

---
 cee-common.c  | 2 +-
 cee.h         | 4 ++--
 release/cee.c | 6 +++---
 release/cee.h | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cee-common.c b/cee-common.c
index effb658..e0a0fe0 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -83,7 +83,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = FIND_SECT(p);
   return cs->in_degree;
 }
diff --git a/cee.h b/cee.h
index 22abddf..de3aba0 100644
--- a/cee.h
+++ b/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -700,7 +700,7 @@ extern void cee_decr_indegree (enum cee_del_policy o, void * p);
 /* 
  * return the reference count of an object
  */
-extern uint16_t cee_get_rc (void *);
+extern uint32_t cee_get_rc (void *);
 
 
 struct cee_state {
diff --git a/release/cee.c b/release/cee.c
index 6629a41..0ffe729 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -98,7 +98,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -709,7 +709,7 @@ extern void cee_decr_indegree (enum cee_del_policy o, void * p);
 /* 
  * return the reference count of an object
  */
-extern uint16_t cee_get_rc (void *);
+extern uint32_t cee_get_rc (void *);
 
 
 struct cee_state {
@@ -1315,7 +1315,7 @@ static void _cee_common_decr_rc (void * p) {
   }
 }
 
-uint16_t get_in_degree (void * p) {
+uint32_t get_in_degree (void * p) {
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
   return cs->in_degree;
 }
diff --git a/release/cee.h b/release/cee.h
index 22abddf..de3aba0 100644
--- a/release/cee.h
+++ b/release/cee.h
@@ -89,7 +89,7 @@ struct cee_sect {
   uint8_t  retained:1;          /* if it is retained, in_degree is ignored */
   uint8_t  gc_mark:2;           /* used for mark & sweep gc */
   uint8_t  n_product;           /* n-ary (no more than 256) product type */
-  uint16_t in_degree;           /* the number of cee objects points to this object */
+  uint32_t in_degree;           /* the number of cee objects points to this object */
   /* begin of gc fields */
   struct cee_state * state;     /* the gc state under which this block is allocated */
   struct cee_sect * trace_next; /* used for chaining struct cee_sect to be traced */
@@ -700,7 +700,7 @@ extern void cee_decr_indegree (enum cee_del_policy o, void * p);
 /* 
  * return the reference count of an object
  */
-extern uint16_t cee_get_rc (void *);
+extern uint32_t cee_get_rc (void *);
 
 
 struct cee_state {
-- 
2.43.0


From f107b407a7418f327d855e69c645287dc52c65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 61/75] fix: str_replace_all: leave room for the terminator

---
 release/cee.c | 2 +-
 str.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 0ffe729..67c145d 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2164,7 +2164,7 @@ char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
   double ratio = new_len/old_len + 1;
-  char *new_str = malloc(orig_len * ratio);
+  char  *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
diff --git a/str.c b/str.c
index eb371ad..9e25c7c 100644
--- a/str.c
+++ b/str.c
@@ -325,7 +325,7 @@ char*
 str_replace_all(const char *str, const char *old_substr, const char *new_substr){
   size_t old_len = strlen(old_substr), new_len = strlen(new_substr), orig_len = strlen(str);
   double ratio = new_len/old_len + 1;
-  char  *new_str = malloc(orig_len * ratio);
+  char  *new_str = malloc(orig_len * ratio + 1);
 
   int i_src = 0, i_dest = 0;
   while( i_src < orig_len ){
-- 
2.43.0


From 045f5e2a76244d0ffacf50d99907d5eae7eb9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 62/75] fix: str_replace_all_ext: size the result for any
 mixture of replacements, empty ones included

---
 release/cee.c | 10 ++--------
 str.c         | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/release/cee.c b/release/cee.c
index 67c145d..69fd86c 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2190,7 +2190,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  size_t max_new_len = 1; /* a byte that is not replaced yields itself */
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -2208,18 +2208,12 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
 
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
-
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len * max_new_len; /* every byte may be replaced */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
diff --git a/str.c b/str.c
index 9e25c7c..b079cd6 100644
--- a/str.c
+++ b/str.c
@@ -351,7 +351,7 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     char *old_needle, *new_needle;
     size_t old_len, new_len;
   };
-  int min_old_len = 1000, max_new_len = 0, max_len, min_len;
+  size_t max_new_len = 1; /* a byte that is not replaced yields itself */
   char *old_needle, *new_needle;
 
   struct pair *pairs, *used_pair = NULL;
@@ -369,18 +369,12 @@ char* str_replace_all_ext(const char *str, size_t str_len, size_t *out_size, int
     pairs[i].old_len = strlen(pairs[i].old_needle);
     pairs[i].new_len = strlen(pairs[i].new_needle);
     
-    if( pairs[i].old_len < min_old_len )
-      min_old_len = pairs[i].old_len;
-    
     if( pairs[i].new_len > max_new_len )
       max_new_len = pairs[i].new_len;
   }
   va_end(ap);
 
-  max_len = max_new_len > min_old_len ? max_new_len : min_old_len;
-  min_len = max_new_len > min_old_len ? min_old_len : max_new_len;
-
-  size_t new_strlen = (str_len/min_len) * max_len; /* make it larger to be safer */
+  size_t new_strlen = str_len * max_new_len; /* every byte may be replaced */
   char *new_str = malloc(new_strlen + 1);
 
   size_t i_src = 0, i_dest = 0;
-- 
2.43.0


From c88b9696f01c853eb5fb7131986765ff26304e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 63/75] fix: cee_state_gc: mark each block once, cyclic graphs
 never ended the collection

---
 cee-common.c  | 3 +++
 release/cee.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cee-common.c b/cee-common.c
index e0a0fe0..964dd1e 100644
--- a/cee-common.c
+++ b/cee-common.c
@@ -15,6 +15,9 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
   
   struct cee_sect * cs = FIND_SECT(p);
+
+  /* mark a block once only: blocks may be shared, and may point to each other */
+  if (ta >= CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
diff --git a/release/cee.c b/release/cee.c
index 69fd86c..a106d91 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -1247,6 +1247,9 @@ void cee_trace (void *p, enum cee_trace_action ta) {
   if (!p) return;
 
   struct cee_sect * cs = (struct cee_sect *)((void *)((char *)p - sizeof(struct cee_sect)));
+
+  /* mark a block once only: blocks may be shared, and may point to each other */
+  if (ta >= CEE_TRACE_MARK && cs->gc_mark == ta - CEE_TRACE_MARK) return;
   cs->trace(p, ta);
 }
 
-- 
2.43.0


From 288620ad21a0e362f6194e24b128a43c33334850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:22 +0000
Subject: [PATCH 64/75] fix: cee_dbm_db_backup: close the log when there is no
 database, report a failed dump

---
 sqlite3/cee_dbm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index d526b0e..f78f580 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -397,6 +397,7 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
   if( access(db_file, F_OK) != 0 ){
     snprintf(log, sizeof log, "%s does not exist", db_file);
     add_log(&log_cs, kind, "backup_failed", log);
+    sqlite3_close(log_cs.db);
     return false;
   }
 
@@ -425,5 +426,5 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
     add_log(&log_cs, kind, "backup_failed", db_script);
 
   sqlite3_close(log_cs.db);
-  return true;
+  return ret == 0;
 }
-- 
2.43.0


From c629f95bdf582716251ed6163bcaad266b20f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 65/75] fix: cee_dbm_db_init: open the log after its directory
 is created, the first log entries were lost

---
 sqlite3/cee_dbm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index f78f580..b57cf97 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -217,7 +217,6 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
                      int *db_version){
   struct cee_sqlite3 log_cs = {0};
   char log[256];
-  open_dbm_log(path_info, &log_cs.db);
 
   char db_script[128];
   char db_file[128], *kind = s->kind;
@@ -229,9 +228,6 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   else
     snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, s->file);
 
-  snprintf(log, sizeof log, "%s", db_file);
-  add_log(&log_cs, kind, "open", log);
-
   char *x, dir[128];
   if( (x = rindex(db_file, '/')) ){
     snprintf(dir, sizeof dir, "%.*s", x - db_file, db_file);
@@ -242,6 +238,11 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
     }
   }
 
+  /* the log is in the directory of the databases, which exists only now */
+  open_dbm_log(path_info, &log_cs.db);
+  snprintf(log, sizeof log, "%s", db_file);
+  add_log(&log_cs, kind, "open", log);
+
   snprintf(db_script, sizeof db_script, "%s/%s_create.%d.sql",
            path_info->schema_script_path, s->kind, s->create_version);
   if( access(db_file, F_OK) == 0 ){
-- 
2.43.0


From 8cc97f003885f3207bc70a974359f99ce1871439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 66/75] fix: cee_dbm: room for every path the configuration
 allows, longer ones named other files

---
 sqlite3/cee_dbm.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index b57cf97..984126f 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -15,6 +15,11 @@
 #include <libgen.h>
 #include <time.h>
 
+enum {
+  PATH_SIZE = 1024,          /* a path made of a directory and a file name */
+  TEXT_SIZE = 3 * PATH_SIZE  /* a text that mentions two paths */
+};
+
 /*
  *
  * the same as "mkdir -p <path>"
@@ -118,7 +123,7 @@ void cee_dbm_open_db(struct cee_state *state, struct cee_sqlite3 *cs,
                      struct cee_dbm_path_info *path_info,
                      char *db_kind, char *db_file,
                      sqlite3* (*open_db)(const char *db_file)){
-  char file[128];
+  char file[PATH_SIZE];
   snprintf(file, sizeof file, "%s/%s", path_info->db_file_path, db_file);
   if( access(file, F_OK) != 0 ){
     fprintf(stderr, "db file %s does not exist\n", file);
@@ -130,7 +135,7 @@ void cee_dbm_open_db(struct cee_state *state, struct cee_sqlite3 *cs,
 void cee_dbm_attach_db(struct cee_sqlite3 *cs,
                        struct cee_dbm_path_info *path_info,
                        char *db_file, char *as_name){
-  char file[256];
+  char file[TEXT_SIZE];
   snprintf(file, sizeof file, "%s/%s", path_info->db_file_path, db_file);
   if( access(file, F_OK) != 0 ){
     fprintf(stderr, "db file %s does not exist\n", file);
@@ -158,7 +163,7 @@ static int get_user_version(const char *db_file){
 
 
 void open_dbm_log(struct cee_dbm_path_info *path_info, sqlite3 **db){
-  char db_file[128];
+  char db_file[PATH_SIZE];
   snprintf(db_file, sizeof db_file, "%s/cee_dbm_log.db", path_info->db_file_path);
   cee_sqlite3_init_db(db, db_file,
                       "create table if not exists log("
@@ -192,7 +197,7 @@ void add_log(struct cee_sqlite3 *cs, char *kind, char *action, char *row){
 
 static
 void my_apply_script(char *kind, const char *db_file, const char *script_file, struct cee_sqlite3 *cs){
-  char log[64];
+  char log[TEXT_SIZE];
   size_t len;
   snprintf(log, sizeof log, "%s to %s", script_file, db_file);
   add_log(cs, kind, "apply", log);
@@ -202,7 +207,7 @@ void my_apply_script(char *kind, const char *db_file, const char *script_file, s
 }
 
 bool cee_dbm_db_exist(struct cee_dbm_path_info *path_info, const char *db_file_){
-  char db_file[128];
+  char db_file[PATH_SIZE];
   snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, db_file_);
   if( access(db_file, F_OK) == 0 )
     return true;
@@ -216,10 +221,10 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
                      const char *restore_data_prefix,
                      int *db_version){
   struct cee_sqlite3 log_cs = {0};
-  char log[256];
+  char log[TEXT_SIZE];
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[TEXT_SIZE];
+  char db_file[PATH_SIZE], *kind = s->kind;
   bool is_new_db = false;
   int current_version, migrated_version;
 
@@ -228,7 +233,7 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
   else
     snprintf(db_file, sizeof db_file, "%s/%s", path_info->db_file_path, s->file);
 
-  char *x, dir[128];
+  char *x, dir[PATH_SIZE];
   if( (x = rindex(db_file, '/')) ){
     snprintf(dir, sizeof dir, "%.*s", x - db_file, db_file);
     //extern int mkdir_p(char *dir, mode_t mode);
@@ -380,11 +385,11 @@ bool cee_dbm_db_backup(struct cee_dbm_path_info *path_info,
                        const char *db_file_,
                        const char *restore_data_prefix){
   struct cee_sqlite3 log_cs = {0};
-  char log[256];
+  char log[TEXT_SIZE];
   open_dbm_log(path_info, &log_cs.db);
 
-  char db_script[128];
-  char db_file[128], *kind = s->kind;
+  char db_script[TEXT_SIZE];
+  char db_file[PATH_SIZE], *kind = s->kind;
   int current_version;
 
   if( db_file_ )
-- 
2.43.0


From a584cc1806d2ba42092627d7fc4f71e07365f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 67/75] fix: cee_dbm: stop when a script cannot be applied
 because the database cannot be opened

---
 sqlite3/cee_dbm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 984126f..8e4a0cc 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -202,8 +202,12 @@ void my_apply_script(char *kind, const char *db_file, const char *script_file, s
   snprintf(log, sizeof log, "%s to %s", script_file, db_file);
   add_log(cs, kind, "apply", log);
   char *schema_text = cee_load_whole_file(script_file, &len);
-  cee_sqlite3_init_db(NULL, (char *) db_file, schema_text, false);
+  sqlite3 *db = NULL;
+  cee_sqlite3_init_db(&db, (char *) db_file, schema_text, false);
   free(schema_text);
+  if( db == NULL )
+    cee_segfault(); /* the database cannot be opened */
+  sqlite3_close(db);
 }
 
 bool cee_dbm_db_exist(struct cee_dbm_path_info *path_info, const char *db_file_){
@@ -254,7 +258,11 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
     if( s->recreate_db ){
       snprintf(log, sizeof log, "drop all tables of %s to RECREATE a fresh db", db_file);
       add_log(&log_cs, kind, "recreate", log);
-      cee_sqlite3_drop_all_tables(NULL, (char *)db_file);
+      sqlite3 *db = NULL;
+      cee_sqlite3_drop_all_tables(&db, (char *)db_file);
+      if( db == NULL )
+        cee_segfault(); /* the database cannot be opened */
+      sqlite3_close(db);
       my_apply_script(kind, db_file, db_script, &log_cs);
       is_new_db = true;
     }
-- 
2.43.0


From 50106394b236c99dcdccb42b0550516728c06732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 68/75] fix: cee_dbm: stop when the version of a database
 cannot be read, it was taken for version 0

---
 sqlite3/cee_dbm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 8e4a0cc..2fbaa5a 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -155,8 +155,16 @@ void cee_dbm_attach_db(struct cee_sqlite3 *cs,
 
 static int get_user_version(const char *db_file){
   sqlite3 *db = NULL;
-  sqlite3_open(db_file, &db);
-  int current_version = cee_sqlite3_get_pragma_variable(db, "user_version");
+  sqlite3_stmt *stmt = NULL;
+  if( sqlite3_open(db_file, &db) != SQLITE_OK
+      || sqlite3_prepare_v2(db, "PRAGMA user_version;", -1, &stmt, 0) != SQLITE_OK
+      || sqlite3_step(stmt) != SQLITE_ROW ){
+    /* an unreadable database has no version, 0 is the version of a new one */
+    fprintf(stderr, "version of %s: %s\n", db_file, sqlite3_errmsg(db));
+    cee_segfault();
+  }
+  int current_version = sqlite3_column_int(stmt, 0);
+  sqlite3_finalize(stmt);
   sqlite3_close(db);
   return current_version;
 }
-- 
2.43.0


From 06dc7454eb6ca829742be440b2c21d57d678fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 69/75] fix: cee_dbm_db_init: create a database that an
 interrupted creation left empty

---
 sqlite3/cee_dbm.c | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index 2fbaa5a..efd4b9c 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -153,20 +153,31 @@ void cee_dbm_attach_db(struct cee_sqlite3 *cs,
   }
 }
 
-static int get_user_version(const char *db_file){
+/* the integer that a query of a database returns */
+static int get_int(const char *db_file, const char *sql){
   sqlite3 *db = NULL;
   sqlite3_stmt *stmt = NULL;
   if( sqlite3_open(db_file, &db) != SQLITE_OK
-      || sqlite3_prepare_v2(db, "PRAGMA user_version;", -1, &stmt, 0) != SQLITE_OK
+      || sqlite3_prepare_v2(db, sql, -1, &stmt, 0) != SQLITE_OK
       || sqlite3_step(stmt) != SQLITE_ROW ){
     /* an unreadable database has no version, 0 is the version of a new one */
-    fprintf(stderr, "version of %s: %s\n", db_file, sqlite3_errmsg(db));
+    fprintf(stderr, "%s of %s: %s\n", sql, db_file, sqlite3_errmsg(db));
     cee_segfault();
   }
-  int current_version = sqlite3_column_int(stmt, 0);
+  int value = sqlite3_column_int(stmt, 0);
   sqlite3_finalize(stmt);
   sqlite3_close(db);
-  return current_version;
+  return value;
+}
+
+static int get_user_version(const char *db_file){
+  return get_int(db_file, "PRAGMA user_version;");
+}
+
+/* a file without a schema is what an interrupted creation leaves */
+static bool is_created(const char *db_file){
+  return access(db_file, F_OK) == 0
+    && get_int(db_file, "select count(*) from sqlite_master;") > 0;
 }
 
 
@@ -262,19 +273,17 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
 
   snprintf(db_script, sizeof db_script, "%s/%s_create.%d.sql",
            path_info->schema_script_path, s->kind, s->create_version);
-  if( access(db_file, F_OK) == 0 ){
-    if( s->recreate_db ){
-      snprintf(log, sizeof log, "drop all tables of %s to RECREATE a fresh db", db_file);
-      add_log(&log_cs, kind, "recreate", log);
-      sqlite3 *db = NULL;
-      cee_sqlite3_drop_all_tables(&db, (char *)db_file);
-      if( db == NULL )
-        cee_segfault(); /* the database cannot be opened */
-      sqlite3_close(db);
-      my_apply_script(kind, db_file, db_script, &log_cs);
-      is_new_db = true;
-    }
-  }else{
+  if( s->recreate_db && access(db_file, F_OK) == 0 ){
+    snprintf(log, sizeof log, "drop all tables of %s to RECREATE a fresh db", db_file);
+    add_log(&log_cs, kind, "recreate", log);
+    sqlite3 *db = NULL;
+    cee_sqlite3_drop_all_tables(&db, (char *)db_file);
+    if( db == NULL )
+      cee_segfault(); /* the database cannot be opened */
+    sqlite3_close(db);
+    my_apply_script(kind, db_file, db_script, &log_cs);
+    is_new_db = true;
+  }else if( !is_created(db_file) ){
     snprintf(log, sizeof log, "create a new %s with %s", db_file, db_script);
     add_log(&log_cs, kind, "create", log);
     my_apply_script(kind, db_file, db_script, &log_cs);
-- 
2.43.0


From e95e042967032c850e13babe220f48b61d16ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 70/75] fix: cee_dbm: descriptions that do not fit their buffer
 were written past its end

---
 sqlite3/cee_dbm.c | 78 ++++++++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index efd4b9c..ebbccf8 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -1,6 +1,7 @@
 #define _BSD_SOURCE
 #define _GNU_SOURCE
 #include <stdlib.h>
+#include <stdarg.h>
 #include "cee_dbm.h"
 #include <stdio.h>
 #include <string.h>
@@ -88,20 +89,34 @@ int cee_dbm_db_info_load(char *start, size_t size, struct cee_dbm_db_info *info)
 }
 #endif
 
+/*
+ * append to a text like snprintf: the text is cut to the size of the buffer,
+ * the returned offset is the one of the whole text
+ */
+static size_t append(char *buf, size_t size, size_t offset, const char *fmt, ...){
+  va_list ap;
+  va_start(ap, fmt);
+  int n = offset < size
+    ? vsnprintf(buf+offset, size-offset, fmt, ap)
+    : vsnprintf(NULL, 0, fmt, ap);
+  va_end(ap);
+  return offset + n;
+}
+
 size_t cee_dbm_path_info_snprint(char *buf, size_t size, struct cee_dbm_path_info *s){
   size_t offset = 0;
-  offset += snprintf(buf+offset, size-offset, "schema_script_path:%s, ", s->schema_script_path);
-  offset += snprintf(buf+offset, size-offset, "data_script_path:%s, ", s->data_script_path);
-  offset += snprintf(buf+offset, size-offset, "db_file_path:%s, ", s->db_file_path);
+  offset = append(buf, size, offset, "schema_script_path:%s, ", s->schema_script_path);
+  offset = append(buf, size, offset, "data_script_path:%s, ", s->data_script_path);
+  offset = append(buf, size, offset, "db_file_path:%s, ", s->db_file_path);
   return offset;
 }
 
 size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *s){
   size_t offset = 0;
-  offset += snprintf(buf, size, "db_kind:%s, ", s->kind);
-  offset += snprintf(buf+offset, size-offset, "create_version:%d, ", s->create_version);
-  offset += snprintf(buf+offset, size-offset, "recreate_db:%s, ", s->recreate_db ? "true":"false");
-  offset += snprintf(buf+offset, size-offset, "restore_db:%s, ", s->restore_db ? "true":"false");
+  offset = append(buf, size, offset, "db_kind:%s, ", s->kind);
+  offset = append(buf, size, offset, "create_version:%d, ", s->create_version);
+  offset = append(buf, size, offset, "recreate_db:%s, ", s->recreate_db ? "true":"false");
+  offset = append(buf, size, offset, "restore_db:%s, ", s->restore_db ? "true":"false");
   return offset;
 }
 
@@ -357,51 +372,24 @@ bool cee_dbm_db_init(struct cee_dbm_path_info *path_info,
 
 
 void cee_dbm_path_info2str(struct cee_dbm_path_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "schema_script_path:%s, ",  info->schema_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "data_script_path:%s, ",  info->data_script_path);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "db_file_path:%s",  info->db_file_path);
-  remaining_size -= n;
-  next += n;
+  size_t offset = 0;
+  offset = append(buf, buf_size, offset, "schema_script_path:%s, ",  info->schema_script_path);
+  offset = append(buf, buf_size, offset, "data_script_path:%s, ",  info->data_script_path);
+  offset = append(buf, buf_size, offset, "db_file_path:%s",  info->db_file_path);
 }
 
 void cee_dbm_db_info2str(struct cee_dbm_db_info *info, size_t buf_size, char *buf){
-  size_t remaining_size = buf_size, n;
-  char *next = buf;
-  n = snprintf(next, remaining_size, "kind:%s, ",  info->kind);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "file:%s, ",  info->file);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "recreate_db:%s, ",
+  size_t offset = 0;
+  offset = append(buf, buf_size, offset, "kind:%s, ",  info->kind);
+  offset = append(buf, buf_size, offset, "file:%s, ",  info->file);
+  offset = append(buf, buf_size, offset, "recreate_db:%s, ",
                info->recreate_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "restore_db:%s, ",
+  offset = append(buf, buf_size, offset, "restore_db:%s, ",
                info->restore_db ? "true":"false");
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "create_version:%d, ",
+  offset = append(buf, buf_size, offset, "create_version:%d, ",
                info->create_version);
-  remaining_size -= n;
-  next += n;
-
-  n = snprintf(next, remaining_size, "final_version:%d",
+  offset = append(buf, buf_size, offset, "final_version:%d",
                info->final_version);
-  remaining_size -= n;
-  next += n;
 }
 
 
-- 
2.43.0


From f65cca76fb13e3389d3290332a389465fd7512eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 71/75] fix: cee_dbm_path_info_normalize: a long home directory
 overflowed, text before $HOME shifted the path

---
 sqlite3/cee_dbm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sqlite3/cee_dbm.c b/sqlite3/cee_dbm.c
index ebbccf8..780ffc8 100644
--- a/sqlite3/cee_dbm.c
+++ b/sqlite3/cee_dbm.c
@@ -121,9 +121,14 @@ size_t cee_dbm_settings_snprint(char *buf, size_t size, struct cee_dbm_db_info *
 }
 
 static void replace_home_env(char path[128], char *home_dir){
-  char buf[128];
-  if( strstr(path, "$HOME") ){
-    int n = snprintf(buf, sizeof buf, "%s%s", home_dir, path + strlen("$HOME"));
+  char buf[128], *home = strstr(path, "$HOME");
+  if( home ){
+    size_t n = snprintf(buf, sizeof buf, "%.*s%s%s", (int)(home - path), path,
+                        home_dir, home + strlen("$HOME"));
+    if( n >= sizeof buf ){
+      fprintf(stderr, "no room for %s with %s\n", path, home_dir);
+      cee_segfault();
+    }
     memcpy(path, buf, n+1);
   }
 }
-- 
2.43.0


From 71f24e2829e2c4cc1c811854ae0c13f136b1cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 72/75] fix: an element's own member named error is not a
 failed join

---
 sqlite3/join.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sqlite3/join.c b/sqlite3/join.c
index 52e0a05..5a40ee0 100644
--- a/sqlite3/join.c
+++ b/sqlite3/join.c
@@ -64,18 +64,16 @@ static int join_one (void *ctx, void *elem, int idx) {
         return 1; /* stop */
     }
   }
+  int rc;
   if( join_ctx->key == NULL ){
-    cee_sqlite3_select1(join_ctx->cs, info, data, join_ctx->sql, &one);
-    if( cee_json_select(one, ".error") )
-      return 1;
+    rc = cee_sqlite3_select1(join_ctx->cs, info, data, join_ctx->sql, &one);
   }else{
-    struct cee_json *rows = NULL, *error = NULL;
-    cee_sqlite3_select(join_ctx->cs, info, data, join_ctx->sql, &rows);
+    struct cee_json *rows = NULL;
+    rc = cee_sqlite3_select(join_ctx->cs, info, data, join_ctx->sql, &rows);
     cee_json_object_set(one, join_ctx->key, rows);
-    if( (error = cee_json_select(rows, ".error")) ){
-      return 1;
-    }
   }
+  if( rc != SQLITE_DONE )
+    return 1; /* stop, the error is in the element or under its key */
 
   return 0;
 }
-- 
2.43.0


From 2f4e0527e8a46e762ee7f1b96b0ece30f0ff4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 73/75] fix: a row with a column named error is not a failed
 query

---
 sqlite3/cee-sqlite3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index bf1db78..b22fe29 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -588,7 +588,7 @@ int cee_sqlite3_select1_or_insert(struct cee_sqlite3 *cs,
   
   if( result ){
     if( status ){
-      if( (error = cee_json_select(result, ".error")) ){
+      if( rc != SQLITE_DONE && (error = cee_json_select(result, ".error")) ){
         if( *status )
           cee_json_object_append(*status, "error", error);
         else
@@ -1000,7 +1000,7 @@ cee_sqlite3_select1_as(struct cee_sqlite3 *cs,
   struct cee_json *result = NULL, *one = NULL;
   int ret = cee_sqlite3_select1(cs, info, data, sql, &one);
 
-  if( cee_json_select(one, ".error") && status ){
+  if( ret != SQLITE_DONE && cee_json_select(one, ".error") && status ){
     accept_result(cs->state, status, &result);
     cee_json_object_append(*status, "error", cee_json_select(one, ".error"));
     return ret;
-- 
2.43.0


From 440341146f516e477d97dfe55e75a8ba4e7e4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 74/75] fix: attach and detach refuse a statement that does not
 fit into the buffer, attach works from a database in memory

---
 sqlite3/cee-sqlite3.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/sqlite3/cee-sqlite3.c b/sqlite3/cee-sqlite3.c
index b22fe29..a60198f 100644
--- a/sqlite3/cee-sqlite3.c
+++ b/sqlite3/cee-sqlite3.c
@@ -1225,16 +1225,29 @@ cee_sqlite3_insert_json_array(struct cee_sqlite3 *cs,
   return cee_json_array_iterate(array, &ctx, insert_one_json_object);
 }
 
+/* run the statement in buf, unless it was cut to the size of buf */
+static int exec_if_fits(struct cee_sqlite3 *cs, const char *buf, int n,
+                        size_t size, char **errmsg){
+  if( n >= 0 && (size_t)n < size )
+    return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
+  if( errmsg )
+    *errmsg = sqlite3_mprintf("the statement does not fit into %d bytes", (int)size);
+  return SQLITE_TOOBIG;
+}
+
 int cee_sqlite3_attach_db(struct cee_sqlite3 *cs, char *db_file, char *as_name,
                           char *buf, size_t size, char **errmsg){
   const char *filename = sqlite3_db_filename(cs->db, NULL);
-  snprintf(buf, size, "attach database \"%.*s/%s\" as %s;",
-           strrchr(filename, '/') - filename, filename, db_file, as_name);
-  return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
+  /* a database in memory has no directory */
+  const char *slash = filename ? strrchr(filename, '/') : NULL;
+  int dir_len = slash ? slash + 1 - filename : 0;
+  int n = snprintf(buf, size, "attach database \"%.*s%s\" as %s;",
+                   dir_len, filename ? filename : "", db_file, as_name);
+  return exec_if_fits(cs, buf, n, size, errmsg);
 }
 
 int cee_sqlite3_detach_db(struct cee_sqlite3 *cs, char *as_name,
                           char *buf, size_t size, char **errmsg){
-  snprintf(buf, size, "detach database '%s';", as_name);
-  return sqlite3_exec(cs->db, buf, NULL, NULL, errmsg);
+  int n = snprintf(buf, size, "detach database '%s';", as_name);
+  return exec_if_fits(cs, buf, n, size, errmsg);
 }
-- 
2.43.0


From 1060691a41904d5f70d7aa680e80258968b8a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:07 +0000
Subject: [PATCH 75/75] fix: renaming a key whose value is NULL keeps the entry

---
 map.c         | 12 ++++++------
 release/cee.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/map.c b/map.c
index 615c2ce..3b4d364 100644
--- a/map.c
+++ b/map.c
@@ -209,13 +209,13 @@ void* cee_map_remove(struct cee_map * m, void *key){
 }
 
 bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
-  if( old_key == NULL || new_key == NULL ) return false;
-  void *v = cee_map_remove(m, old_key);
-  if( v ){
-    cee_map_add(m, new_key, v);
-    return true;
-  }else
+  if( m == NULL || old_key == NULL || new_key == NULL ) return false;
+  struct S(header) *b = FIND_HEADER(m);
+  struct cee_tuple t = { old_key, 0 };
+  if( NULL == musl_tfind(b, &t, b->_, S(cmp)) )
     return false;
+  cee_map_add(m, new_key, cee_map_remove(m, old_key));
+  return true;
 }
 
 static void S(get_key) (void * ctx, const void *nodep, const VISIT which, const int depth) {
diff --git a/release/cee.c b/release/cee.c
index a106d91..17c6273 100644
--- a/release/cee.c
+++ b/release/cee.c
@@ -2669,13 +2669,13 @@ void* cee_map_remove(struct cee_map * m, void *key){
 }
 
 bool cee_map_rename(struct cee_map *m, void *old_key, void *new_key){
-  if( old_key == NULL || new_key == NULL ) return false;
-  void *v = cee_map_remove(m, old_key);
-  if( v ){
-    cee_map_add(m, new_key, v);
-    return true;
-  }else
+  if( m == NULL || old_key == NULL || new_key == NULL ) return false;
+  struct _cee_map_header *b = (struct _cee_map_header *)((void *)((char *)(m) - (__builtin_offsetof(struct _cee_map_header, _))));
+  struct cee_tuple t = { old_key, 0 };
+  if( NULL == musl_tfind(b, &t, b->_, _cee_map_cmp) )
     return false;
+  cee_map_add(m, new_key, cee_map_remove(m, old_key));
+  return true;
 }
 
 static void _cee_map_get_key (void * ctx, const void *nodep, const VISIT which, const int depth) {
-- 
2.43.0

