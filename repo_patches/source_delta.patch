From a9bbf173182d95e87dfe91dc97c315534b782a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:40 +0000
Subject: [PATCH 01/89] fix: keep BitVector count right when setting bits of a
 negated vector

---
 c/include/bitvector.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 032283d..6e22fe1 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -103,12 +103,18 @@ void frt_bv_set_value(FrtBitVector *bv, int bit, bool value)
     /* Set the required bit */
     word_p = &(bv->bits[word]);
     if ((!!(bitmask & *word_p)) != value) {
-        if (value) {
+        /* count holds the number of bits which differ from the extension, see
+         * frt_bv_recount */
+        if (value == bv->extends_as_ones) {
+            bv->count--;
+        }
+        else {
             bv->count++;
+        }
+        if (value) {
             *word_p |= bitmask;
         }
         else {
-            bv->count--;
             *word_p &= ~bitmask;
         }
     }
-- 
2.43.0


From 32617ae9471fdfbfbc574fd80d7feccb38b3a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:40 +0000
Subject: [PATCH 02/89] fix: don't read past the last word when recounting a
 BitVector of whole words

---
 c/include/bitvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 6e22fe1..457f549 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -226,7 +226,7 @@ extern void frt_bv_clear(FrtBitVector *bv);
 static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_recount(FrtBitVector *bv)
 {
-    unsigned int extra = ((bv->size & 31) >> 3) + 1;
+    unsigned int extra = (bv->size & 31) ? ((bv->size & 31) >> 3) + 1 : 0;
     unsigned int len   = bv->size >> 5;
     unsigned int idx, count = 0;
 
-- 
2.43.0


From ab34d044a8c6213f7d1269bbae6faf004f8e55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:40 +0000
Subject: [PATCH 03/89] fix: make in-place BitVector operations respect how the
 operands extend

---
 c/include/bitvector.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 457f549..014aff6 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -423,8 +423,11 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
     int max_word_size = FRT_TO_WORD(max_size);                        \
     int min_word_size = FRT_TO_WORD(min_size);                        \
     int capa = frt_max2(frt_round2(max_word_size), 4);                \
+    /* bv may be a, so remember how a and b extend */                 \
+    bool a_ext = a->extends_as_ones;                                  \
+    bool b_ext = b->extends_as_ones;                                  \
                                                                       \
-    bv->extends_as_ones = (a->extends_as_ones op b->extends_as_ones); \
+    bv->extends_as_ones = (a_ext op b_ext);                           \
     frt_bv_capa(bv, capa, max_size);                                  \
                                                                       \
     for (i = 0; i < min_word_size; ++i)                               \
@@ -432,13 +435,17 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
                                                                       \
     if (a_wsz != b_wsz) {                                             \
         frt_u32 *bits = a->bits;                                      \
-        bool extends_as_ones = b->extends_as_ones;                    \
+        bool extends_as_ones = b_ext;                                 \
         if (a_wsz < b_wsz) {                                          \
             bits = b->bits;                                           \
-            extends_as_ones = a->extends_as_ones;                     \
+            extends_as_ones = a_ext;                                  \
         }                                                             \
         ext_cb(bv->bits, bits, extends_as_ones, i, max_word_size);    \
     }                                                                 \
+    /* unused words must agree with the way the result extends */     \
+    memset(bv->bits + max_word_size,                                  \
+           (bv->extends_as_ones ? 0xFF : 0),                          \
+           sizeof(frt_u32) * (bv->capa - max_word_size));             \
     frt_bv_recount(bv);                                               \
 } while(0)
 
-- 
2.43.0


From 47fdfdc8c9a536c7c3b2440ea8496f1e4dfce60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 04/89] fix: read the offset count of an empty term vector so
 that the next one is read from the right place

---
 c/src/index.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 289a1b7..5b8910a 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1671,14 +1671,14 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
     InStream *fdt_in = fr->fdt_in;
     FieldInfo *fi = fr->fis->fields[field_num];
     const int num_terms = is_read_vint(fdt_in);
+    int i;
 
     tv->field_num = field_num;
     tv->field = fi->name;
 
     if (num_terms > 0) {
-        int i, j, delta_start, delta_len, total_len, freq;
+        int j, delta_start, delta_len, total_len, freq;
         int store_positions = fi_store_positions(fi);
-        int store_offsets = fi_store_offsets(fi);
         uchar buffer[MAX_WORD_SIZE];
         TVTerm *term;
 
@@ -1708,18 +1708,19 @@ static TermVector *fr_read_term_vector(FieldsReader *fr, int field_num)
                 }
             }
 
-            /* read offsets if necessary */
-        }
-        if (store_offsets) {
-            int num_positions = tv->offset_cnt = is_read_vint(fdt_in);
-            Offset *offsets = tv->offsets = ALLOC_N(Offset, num_positions);
-            i64 offset = 0;
-            for (i = 0; i < num_positions; i++) {
-                offsets[i].start =
-                    (off_t)(offset += (i64)is_read_vll(fdt_in));
-                offsets[i].end =
-                    (off_t)(offset += (i64)is_read_vll(fdt_in));
-            }
+        }
+    }
+
+    /* read offsets if necessary. They are written even if there are no terms */
+    if (fi_store_offsets(fi)) {
+        int num_positions = tv->offset_cnt = is_read_vint(fdt_in);
+        Offset *offsets = tv->offsets = ALLOC_N(Offset, num_positions);
+        i64 offset = 0;
+        for (i = 0; i < num_positions; i++) {
+            offsets[i].start =
+                (off_t)(offset += (i64)is_read_vll(fdt_in));
+            offsets[i].end =
+                (off_t)(offset += (i64)is_read_vll(fdt_in));
         }
     }
     return tv;
-- 
2.43.0


From 7b0269a821973c7a35f4482614530519a7b97661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 05/89] fix: closing a lock object must not remove a lock file
 somebody else holds

---
 c/src/fs_store.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index b57a697..9050b61 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -408,7 +408,6 @@ static Lock *fs_open_lock_i(Store *store, const char *lockname)
 
 static void fs_close_lock_i(Lock *lock)
 {
-    remove(lock->name);
     free(lock->name);
     free(lock);
 }
-- 
2.43.0


From 60601e0adf0169cfef73c23985b3890349323574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 06/89] fix: don't remove the locks of other processes when a
 file store is closed

---
 c/src/fs_store.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 9050b61..0db30c0 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -209,18 +209,13 @@ static void fs_clear_all(Store *store)
 }
 
 /**
- * Destroy the store.
+ * Destroy the store. Locks in the directory are left alone as they may be held
+ * by another process.
  *
  * @param p the store to destroy
- * @raise IO_ERROR if there is an error deleting the locks
  */
 static void fs_destroy(Store *store)
 {
-    TRY
-        fs_clear_locks(store);
-    XCATCHALL
-        HANDLED();
-    XENDTRY
     free(store->dir.path);
     store_destroy(store);
 }
-- 
2.43.0


From 9860103183639772fe960f366d71180941ceb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 07/89] fix: don't release another holder's write lock when
 opening a writer fails

---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 5b8910a..f79dca0 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6496,6 +6496,9 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     TRY
         iw->write_lock = open_lock(store, WRITE_LOCK_NAME);
         if (!iw->write_lock->obtain(iw->write_lock)) {
+            /* it is not ours to release */
+            close_lock(iw->write_lock);
+            iw->write_lock = NULL;
             RAISE(LOCK_ERROR,
                   "Couldn't obtain write lock when opening IndexWriter");
         }
-- 
2.43.0


From 6aea6283196142354224ff17ec9152d7051cb5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 08/89] fix: a reader refused the write lock must not keep its
 mutex or pretend to hold the lock

---
 c/src/index.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index f79dca0..503f8b7 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3892,6 +3892,8 @@ static void ir_acquire_write_lock(IndexReader *ir)
     if (NULL == ir->write_lock) {
         ir->write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
         if (!ir->write_lock->obtain(ir->write_lock)) {/* obtain write lock */
+            close_lock(ir->write_lock);
+            ir->write_lock = NULL;
             RAISE(LOCK_ERROR, "Could not obtain write lock when trying to "
                               "write changes to the index. Check that there "
                               "are no stale locks in the index. Look for "
@@ -3973,10 +3975,13 @@ int ir_doc_freq(IndexReader *ir, Symbol field, const char *term)
 static void ir_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->set_norm_i(ir, doc_num, field_num, val);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->set_norm_i(ir, doc_num, field_num, val);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
@@ -4023,20 +4028,26 @@ uchar *ir_get_norms_into(IndexReader *ir, Symbol field, uchar *buf)
 void ir_undelete_all(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->undelete_all_i(ir);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->undelete_all_i(ir);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_delete_doc(IndexReader *ir, int doc_num)
 {
     if (doc_num >= 0 && doc_num < ir->max_doc(ir)) {
         mutex_lock(&ir->mutex);
-        ir->acquire_write_lock(ir);
-        ir->delete_doc_i(ir, doc_num);
-        ir->has_changes = true;
-        mutex_unlock(&ir->mutex);
+        TRY
+            ir->acquire_write_lock(ir);
+            ir->delete_doc_i(ir, doc_num);
+            ir->has_changes = true;
+        XFINALLY
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
 }
 
-- 
2.43.0


From e09a03134263cc137d57b094b0b0368bc5c13330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 09/89] fix: a reader of an index that was recreated since is
 stale too

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 503f8b7..5467f50 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3904,7 +3904,7 @@ static void ir_acquire_write_lock(IndexReader *ir)
 
         /* we have to check whether index has changed since this reader was
          * opened.  if so, this reader is no longer valid for deletion */
-        if (sis_read_current_version(ir->store) > ir->sis->version) {
+        if (sis_read_current_version(ir->store) != ir->sis->version) {
             ir->is_stale = true;
             ir->write_lock->release(ir->write_lock);
             close_lock(ir->write_lock);
-- 
2.43.0


From e8f6d1acedb6acf7a806d5241ca81c5b16398f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 10/89] fix: a reader opened on an empty index must notice
 later commits

---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 5467f50..e375051 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4939,6 +4939,9 @@ static bool mr_is_latest_i(IndexReader *ir)
 {
     int i;
     const int mr_reader_cnt = MR(ir)->r_cnt;
+    if (ir->is_owner) { /* also right when there are no segments */
+        return (sis_read_current_version(ir->store) == ir->sis->version);
+    }
     for (i = 0; i < mr_reader_cnt; i++) {
         if (!ir_is_latest(MR(ir)->sub_readers[i])) {
             return false;
-- 
2.43.0


From 6aecf95f936571a91afe9a91a1e501578d0b13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 11/89] fix: clear the norms cached under the MultiReader's own
 field number

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index e375051..f1364f7 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4895,7 +4895,7 @@ static void mr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val
     if (fnum >= 0) {
         IndexReader *reader = MR(ir)->sub_readers[i];
         ir->has_changes = true;
-        h_del_int(MR(ir)->norms_cache, fnum);/* clear cache */
+        h_del_int(MR(ir)->norms_cache, field_num);/* clear cache */
         ir_set_norm_i(reader, doc_num - MR(ir)->starts[i], fnum, val);
     }
 }
-- 
2.43.0


From c11a695f1af17a08f47fa268b7776df6c591a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 12/89] fix: a MultiReader over independent readers must
 acquire their write locks to delete and undelete

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index f1364f7..e7af62a 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4906,7 +4906,7 @@ static void mr_delete_doc_i(IndexReader *ir, int doc_num)
     MR(ir)->num_docs_cache = -1; /* invalidate cache */
 
     /* dispatch to segment reader */
-    reader->delete_doc_i(reader, doc_num - MR(ir)->starts[i]);
+    ir_delete_doc(reader, doc_num - MR(ir)->starts[i]);
     MR(ir)->has_deletions = true;
     ir->has_changes = true;
 }
@@ -4919,7 +4919,7 @@ static void mr_undelete_all_i(IndexReader *ir)
     MR(ir)->num_docs_cache = -1;                     /* invalidate cache */
     for (i = 0; i < mr_reader_cnt; i++) {
         IndexReader *reader = MR(ir)->sub_readers[i];
-        reader->undelete_all_i(reader);
+        ir_undelete_all(reader);
     }
     MR(ir)->has_deletions = false;
     ir->has_changes = true;
-- 
2.43.0


From 1c14f132de3529622e41edb60431e1d6d92e93f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:01 +0000
Subject: [PATCH 13/89] fix: count the documents skipped over when the first
 skip entry is for document 0

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index e7af62a..51194e2 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3030,7 +3030,7 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
             last_frq_ptr = stde->frq_ptr;
             last_prx_ptr = stde->prx_ptr;
 
-            if (0 != stde->skip_doc && stde->skip_doc >= stde->doc_num) {
+            if (stde->skip_count > 0 && stde->skip_doc >= stde->doc_num) {
                 num_skipped += stde->skip_interval;
             }
 
-- 
2.43.0


From 1e36bc22d21653bfc1ab8a6adbee7e415e2d0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:01 +0000
Subject: [PATCH 14/89] fix: reading bytes of a compressed field from a value
 separator on

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 51194e2..1a47888 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1438,7 +1438,7 @@ void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
         int cur_start = 0, buf_start = 0, cur_end, i, copy_start, copy_len;
         for (i = 0; i < self->size; i++) {
             cur_end = cur_start + self->data[i].length;
-            if (start < cur_end) {
+            if (start <= cur_end) { /* start may be the separator at cur_end */
                 copy_start = start > cur_start ? start - cur_start : 0;
                 copy_len = cur_end - cur_start - copy_start;
                 if (copy_len >= len) {
-- 
2.43.0


From b7452b0880065a2ef6cd1dcd51bde00dcb6cd5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:23 +0000
Subject: [PATCH 15/89] fix: asking for the term vectors of a document in an
 index without any crashed

---
 c/src/index.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 1a47888..023aabe 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4580,6 +4580,9 @@ static TermVector *sr_term_vector(IndexReader *ir, int doc_num,
 static Hash *sr_term_vectors(IndexReader *ir, int doc_num)
 {
     FieldsReader *fr;
+    if (!SR(ir)->fr_bucket) { /* no field in the index stores term-vectors */
+        return h_new_ptr((free_ft)&tv_destroy);
+    }
     if (!SR(ir)->fr || NULL == (fr = sr_fr(SR(ir)))) {
         return NULL;
     }
-- 
2.43.0


From dc0f4d8bd632c78f00edd74690a662947e8f9e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:06 +0000
Subject: [PATCH 16/89] fix: adding readers to an index must carry over the
 deletions and norms they show

---
 c/src/index.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 023aabe..475ce85 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6568,16 +6568,6 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
     sprintf(file_name, "%s.fdx", sr_segment);
     fdx_in = store_in->open_input(store_in, file_name);
 
-    sprintf(file_name, "%s.del", sr_segment);
-    if (store_in->exists(store_in, file_name)) {
-        OutStream *del_out;
-        InStream *del_in = store_in->open_input(store_in, file_name);
-        sprintf(file_name, "%s.del", segment);
-        del_out = store_out->new_output(store_out, file_name);
-        is2os_copy_bytes(del_in, del_out, is_length(del_in));
-    }
-
-
     if (map) {
         int i;
         const int max_doc = sr_max_doc(IR(sr));
@@ -6724,17 +6714,36 @@ static void iw_cp_norms(IndexWriter *iw, SegmentReader *sr,
                                                           : IR(sr)->store;
             int field_num = map ? map[i] : i;
 
-            norms_in = store->open_input(store, file_name_in);
+            Norm *norm = (Norm *)h_get_int(sr->norms, i);
+
             si_advance_norm_gen(si, field_num);
             si_norm_file_name(si, file_name_out, field_num);
             norms_out = store_out->new_output(store_out, file_name_out);
-            is2os_copy_bytes(norms_in, norms_out, is_length(norms_in));
+            if (norm && norm->is_dirty) {
+                /* set through the reader and not written yet */
+                os_write_bytes(norms_out, norm->bytes, sr_max_doc(IR(sr)));
+            }
+            else {
+                norms_in = store->open_input(store, file_name_in);
+                is2os_copy_bytes(norms_in, norms_out, is_length(norms_in));
+                is_close(norms_in);
+            }
             os_close(norms_out);
-            is_close(norms_in);
         }
     }
 }
 
+static void iw_cp_deleted_docs(IndexWriter *iw, SegmentReader *sr,
+                               SegmentInfo *si)
+{
+    if (sr->deleted_docs) {
+        char file_name[SEGMENT_NAME_MAX_LENGTH];
+        si->del_gen++;
+        fn_for_generation(file_name, si->name, "del", si->del_gen);
+        bv_write(sr->deleted_docs, iw->store, file_name);
+    }
+}
+
 static void iw_cp_map_files(IndexWriter *iw, SegmentReader *sr,
                             SegmentInfo *si)
 {
@@ -6794,6 +6803,7 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
     else {
         iw_cp_files(iw, sr, si);
     }
+    iw_cp_deleted_docs(iw, sr, si);
 }
 
 static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
-- 
2.43.0


From 961ae4b3a3aa8ed5eca8879f1548af45f43c6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:27 +0000
Subject: [PATCH 17/89] fix: a memory pool created with no initial capacity
 overflowed its buffer table

---
 c/src/mempool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/mempool.c b/c/src/mempool.c
index d438227..226eec0 100644
--- a/c/src/mempool.c
+++ b/c/src/mempool.c
@@ -6,6 +6,7 @@
 MemoryPool *mp_new_capa(int chuck_size, int init_buf_capa)
 {
     MemoryPool *mp = ALLOC(MemoryPool);
+    if (init_buf_capa < 1) init_buf_capa = 1; /* room for the first chunk */
     mp->chunk_size = chuck_size;
     mp->buf_capa = init_buf_capa;
     mp->buffers = ALLOC_N(char *, init_buf_capa);
-- 
2.43.0


From 90d1e72381a5d76070075122afd412a7770e241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:53 +0000
Subject: [PATCH 18/89] fix: compressed values longer than the zip buffer hung
 writer and reader

---
 c/src/index.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 475ce85..b072e32 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1266,14 +1266,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, buf_in, zip_len);
+        is_read_bytes(is, buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = inflate(&zstrm, Z_NO_FLUSH);
             assert(ret != Z_STREAM_ERROR);  /* state not clobbered */
@@ -1286,14 +1286,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != Z_STREAM_END && zstrm.avail_out == 0);
     } while (ret != Z_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)inflateEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, uchar, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1356,14 +1356,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, (uchar *)buf_in, zip_len);
+        is_read_bytes(is, (uchar *)buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
             REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = BZ2_bzDecompress(&zstrm);
             assert(ret != BZ_SEQUENCE_ERROR);  /* state not clobbered */
@@ -1372,14 +1372,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (ret != BZ_STREAM_END && zstrm.avail_out == 0);
     } while (ret != BZ_STREAM_END && zip_len != 0);
 
     /* clean up */
     (void)BZ2_bzDecompressEnd(&zstrm);
 
-    buf_out[buf_out_idx] = '\0';
     REALLOC_N(buf_out, char, buf_out_idx + 1);
+    buf_out[buf_out_idx] = '\0';
     *len = buf_out_idx;
     return (char *)buf_out;
 }
@@ -1850,15 +1850,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = deflate(&zstrm, Z_FINISH); /* no bad return value */
         assert(ret != Z_STREAM_ERROR) ;  /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != Z_STREAM_END);
     assert(zstrm.avail_in == 0);         /* all input will be used */
 
     /* clean up */
@@ -1878,15 +1878,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = (char *)data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = BZ2_bzCompress(&zstrm, BZ_FINISH); /* no bad return value */
         assert(ret != BZ_SEQUENCE_ERROR);        /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, (uchar *)out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != BZ_STREAM_END);
     assert(zstrm.avail_in == 0);       /* all input will be used */
 
     /* clean up */
-- 
2.43.0


From 18eb0e62d18a9fc43e74819590752896b4494f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:19 +0000
Subject: [PATCH 19/89] fix: an untokenised value of exactly the maximum word
 size overflowed the term buffers

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index b072e32..3c6d686 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5640,7 +5640,7 @@ Hash *dw_invert_field(DocWriter *dw,
         for (i = 0; i < df_size; i++) {
             int len = df->lengths[i];
             char *data_ptr = df->data[i];
-            if (len > MAX_WORD_SIZE) {
+            if (len >= MAX_WORD_SIZE) {
                 len = MAX_WORD_SIZE - 1;
                 data_ptr = (char *)memcpy(buf, df->data[i], len);
             }
-- 
2.43.0


From 5109a4933bcb80af5903745780c6353cfe5f47e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:42 +0000
Subject: [PATCH 20/89] fix: index at most max_field_length terms of a field

---
 c/src/index.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 3c6d686..15c01eb 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5598,7 +5598,7 @@ Hash *dw_invert_field(DocWriter *dw,
         Token *tk;
         int pos = -1, num_terms = 0;
 
-        for (i = 0; i < df_size; i++) {
+        for (i = 0; i < df_size && num_terms < dw->max_field_length; i++) {
             TokenStream *ts = a_get_ts(a, df->name, df->data[i]);
             /* ts->reset(ts, df->data[i]); no longer being called */
             if (store_offsets) {
@@ -5614,7 +5614,7 @@ Hash *dw_invert_field(DocWriter *dw,
                     dw_add_offsets(dw, pos,
                                    start_offset + tk->start,
                                    start_offset + tk->end);
-                    if (num_terms++ >= dw->max_field_length) {
+                    if (++num_terms >= dw->max_field_length) {
                         break;
                     }
                 }
@@ -5624,7 +5624,7 @@ Hash *dw_invert_field(DocWriter *dw,
                     pos += tk->pos_inc;
                     dw_add_posting(mp, curr_plists, fld_plists, doc_num,
                                    tk->text, tk->len, pos);
-                    if (num_terms++ >= dw->max_field_length) {
+                    if (++num_terms >= dw->max_field_length) {
                         break;
                     }
                 }
-- 
2.43.0


From 3e44918e9fe45093a7e9c2acc6892c925b58d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:06 +0000
Subject: [PATCH 21/89] fix: the merger's term buffer could overwrite the last
 index term when terms are long

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 15c01eb..fa7ad60 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6100,7 +6100,7 @@ static void sm_merge_terms(SegmentMerger *sm)
      * term put in the index with the next one. So the size of the buffer must
      * by index_interval + 2. */
     sm->term_buf_ptr = 0;
-    sm->term_buf_size = (sm->config->index_interval + 1) * MAX_WORD_SIZE;
+    sm->term_buf_size = (sm->config->index_interval + 2) * MAX_WORD_SIZE;
     sm->term_buf = ALLOC_N(char, sm->term_buf_size + MAX_WORD_SIZE);
 
     sm->queue = pq_new(sm->seg_cnt, (lt_ft)&smi_lt, NULL);
-- 
2.43.0


From 0ddaeb14ed1e376ebb00f11ec73baf4409e7d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:15 +0000
Subject: [PATCH 22/89] fix: an exhausted conjunction scorer stays exhausted
 after skip_to

---
 c/src/q_boolean.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 17028ab..3b69a33 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -396,12 +396,12 @@ static bool csc_skip_to(Scorer *self, int doc_num)
             more = sub_scorer->skip_to(sub_scorer, doc_num);
         }
     }
+    csc->more = more;
     if (more) {
-        /* resort the scorers */
+        /* resort the scorers; this may exhaust one of them */
         csc_sort_scorers(csc);
     }
 
-    csc->more = more;
     return csc_do_next(self);
 }
 
-- 
2.43.0


From 10fe051ca0d6d5aa2c50d3ab834fa1082a5953ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:15 +0000
Subject: [PATCH 23/89] fix: filtered queries survive unmatched terms,
 rewriting and combination

---
 c/src/q_filtered_query.c | 44 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 31f8c07..66065c2 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -127,6 +127,9 @@ static Scorer *fqw_scorer(Weight *self, IndexReader *ir)
     Scorer *scorer = sub_weight->scorer(sub_weight, ir);
     Filter *filter = FQQ(self->query)->filter;
 
+    if (!scorer) {
+        return NULL;
+    }
     return fqsc_new(scorer, filt_get_bv(filter, ir), self->similarity);
 }
 
@@ -189,6 +192,43 @@ static void fq_destroy(Query *self)
     q_destroy_i(self);
 }
 
+static Query *fq_rewrite(Query *self, IndexReader *ir)
+{
+    Query *sub_query = FQQ(self)->query;
+    Query *rewritten = sub_query->rewrite(sub_query, ir);
+
+    if (rewritten == sub_query) {
+        q_deref(rewritten);
+        REF(self);
+        return self;
+    }
+    else {
+        Filter *filter = FQQ(self)->filter;
+        Query *q;
+        REF(filter);
+        q = fq_new(rewritten, filter);
+        q->boost = self->boost;
+        return q;
+    }
+}
+
+static void fq_extract_terms(Query *self, HashSet *terms)
+{
+    Query *sub_query = FQQ(self)->query;
+    sub_query->extract_terms(sub_query, terms);
+}
+
+static unsigned long fq_hash(Query *self)
+{
+    return filt_hash(FQQ(self)->filter) ^ q_hash(FQQ(self)->query);
+}
+
+static int fq_eq(Query *self, Query *o)
+{
+    return filt_eq(FQQ(self)->filter, FQQ(o)->filter)
+        && q_eq(FQQ(self)->query, FQQ(o)->query);
+}
+
 static Weight *fq_new_weight(Query *self, Searcher *searcher)
 {
     Query *sub_query = FQQ(self)->query;
@@ -205,6 +245,10 @@ Query *fq_new(Query *query, Filter *filter)
 
     self->type              = FILTERED_QUERY;
     self->to_s              = &fq_to_s;
+    self->hash              = &fq_hash;
+    self->eq                = &fq_eq;
+    self->rewrite           = &fq_rewrite;
+    self->extract_terms     = &fq_extract_terms;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From c993d1a8312adf3344300e85555f9a9d84c40ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:07 +0000
Subject: [PATCH 24/89] fix: sloppy phrases with repeated terms need as many
 occurrences

---
 c/src/q_phrase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 03e37c7..3475c70 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -471,7 +471,7 @@ static float sphsc_phrase_freq(Scorer *self)
         res = pp_first_position(pp);
         assert(res);(void)res;
         if (check_repeats && i > 0) {
-            if (!sphsc_check_repeats(pp, phsc->phrase_pos, i - 1)) {
+            if (!sphsc_check_repeats(pp, phsc->phrase_pos, i)) {
                 goto return_freq;
             }
         }
-- 
2.43.0


From d146689d69d744b797ef8457df50f7d2dc4a742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:07 +0000
Subject: [PATCH 25/89] fix: span enumerators and their scorer visit every span
 once, also when skipping

---
 c/src/q_span.c | 70 ++++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index da844a8..e0fee0c 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -107,9 +107,8 @@ static bool tv_tde_next(TermDocEnum *tde)
 
 static bool tv_tde_skip_to(TermDocEnum *tde, int doc_num)
 {
-    if (doc_num == 0) {
-        TV_TDE(tde)->doc = 0;
-        return true;
+    if (doc_num <= 0) {
+        return tv_tde_next(tde);
     }
     else {
         TV_TDE(tde)->doc = INT_MAX;
@@ -211,17 +210,12 @@ static float spansc_score(Scorer *self)
     return raw * sim_decode_norm(self->similarity, spansc->norms[self->doc]);
 }
 
-static bool spansc_next(Scorer *self)
+static bool spansc_score_current_doc(Scorer *self)
 {
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
     int match_length;
 
-    if (spansc->first_time) {
-        spansc->more = se->next(se);
-        spansc->first_time = false;
-    }
-
     if (!spansc->more) {
         return false;
     }
@@ -238,28 +232,35 @@ static bool spansc_next(Scorer *self)
     return (spansc->more || (spansc->freq != 0.0));
 }
 
-static bool spansc_skip_to(Scorer *self, int target)
+static bool spansc_next(Scorer *self)
 {
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
 
-    spansc->more = se->skip_to(se, target);
-    if (!spansc->more) {
-        return false;
+    if (spansc->first_time) {
+        spansc->more = se->next(se);
+        spansc->first_time = false;
     }
 
-    spansc->freq = 0.0;
-    self->doc = se->doc(se);
+    return spansc_score_current_doc(self);
+}
 
-    while (spansc->more && (se->doc(se) == target)) {
-        spansc->freq += sim_sloppy_freq(spansc->sim, se->end(se) - se->start(se));
-        spansc->more = se->next(se);
-        if (spansc->first_time) {
-            spansc->first_time = false;
-        }
+static bool spansc_skip_to(Scorer *self, int target)
+{
+    SpanScorer *spansc = SpSc(self);
+    SpanEnum *se = spansc->spans;
+
+    /* scoring a document leaves the spans on the one after it, which may
+     * already be the target or beyond it */
+    if (spansc->first_time) {
+        spansc->more = se->skip_to(se, target);
+        spansc->first_time = false;
+    }
+    else if (spansc->more && se->doc(se) < target) {
+        spansc->more = se->skip_to(se, target);
     }
 
-    return (spansc->more || (spansc->freq != 0.0));
+    return spansc_score_current_doc(self);
 }
 
 static Explanation *spansc_explain(Scorer *self, int target)
@@ -459,6 +460,7 @@ typedef struct TermPosEnumWrapper
     TermDocEnum *tpe;
     int          doc;
     int          pos;
+    int          pos_left;  /* positions left to read in the current doc */
 } TermPosEnumWrapper;
 
 static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
@@ -471,11 +473,13 @@ static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
 static bool tpew_next(TermPosEnumWrapper *self)
 {
     TermDocEnum *tpe = self->tpe;
-    if (0 > (self->pos = tpe->next_position(tpe))) {
+    if (self->pos_left == 0) {
         if (!tpe->next(tpe)) return false;
         self->doc = tpe->doc_num(tpe);
-        self->pos = tpe->next_position(tpe);
+        self->pos_left = tpe->freq(tpe);
     }
+    self->pos = tpe->next_position(tpe);
+    self->pos_left--;
     return true;
 }
 
@@ -486,6 +490,7 @@ static bool tpew_skip_to(TermPosEnumWrapper *self, int doc_num)
     if (tpe->skip_to(tpe, doc_num)) {
         self->doc = tpe->doc_num(tpe);
         self->pos = tpe->next_position(tpe);
+        self->pos_left = tpe->freq(tpe) - 1;
         return true;
     }
     else {
@@ -541,6 +546,7 @@ static bool spanmte_next(SpanEnum *self)
 
     tpew = (TermPosEnumWrapper *)pq_top(tpew_pq);
     if (tpew == NULL) {
+        mte->doc = INT_MAX;
         return false;
     }
 
@@ -569,13 +575,14 @@ static bool spanmte_skip_to(SpanEnum *self, int target)
         int i;
         tpew_pq = pq_new(mte->tpew_cnt, (lt_ft)tpew_less_than, (free_ft)NULL);
         for (i = mte->tpew_cnt - 1; i >= 0; i--) {
-            tpew_skip_to(tpews[i], target);
-            pq_push(tpew_pq, tpews[i]);
+            if (tpew_skip_to(tpews[i], target)) {
+                pq_push(tpew_pq, tpews[i]);
+            }
         }
         mte->tpew_pq = tpew_pq;
     }
     if (tpew_pq->size == 0) {
-        mte->doc = -1;
+        mte->doc = INT_MAX;
         return false;
     }
     while ((tpew = (TermPosEnumWrapper *)pq_top(tpew_pq)) != NULL
@@ -1116,7 +1123,7 @@ static bool sne_next_match(SpanEnum *self)
     SpanNearEnum *sne = SpNEn(self);
     SpanEnum *se_curr, *se_next;
 
-    if (!sne->first_time) {
+    if (sne->first_time) {
         if (!sne_init(sne)) {
             return false;
         }
@@ -1298,10 +1305,13 @@ static bool spanxe_skip_to(SpanEnum *self, int target)
     int doc;
 
     if (sxe->more_inc) {                        /*  move to next incl */
-        if (!(sxe->more_inc=sxe->inc->skip_to(sxe->inc, target))) return false;
+        sxe->more_inc = inc->skip_to(inc, target);
+    }
+    if (!sxe->more_inc) {
+        return false;
     }
 
-    if (sxe->more_inc && ((doc=inc->doc(inc)) > exc->doc(exc))) {
+    if (sxe->more_exc && ((doc=inc->doc(inc)) > exc->doc(exc))) {
         sxe->more_exc = exc->skip_to(exc, doc);
     }
 
-- 
2.43.0


From 05008285c1f15a370057915f908562f7c5d43db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:55 +0000
Subject: [PATCH 26/89] fix: rewriting a span or purely negative boolean query
 leaves the query itself unchanged

---
 c/src/q_boolean.c | 36 ++++++++++++--------
 c/src/q_span.c    | 85 +++++++++++++++++++++++++++++++----------------
 2 files changed, 79 insertions(+), 42 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 3b69a33..baba4fc 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1336,6 +1336,24 @@ static MatchVector *bq_get_matchv_i(Query *self, MatchVector *mv,
     return mv;
 }
 
+/* returns a copy of +self+ sharing its clauses in exchange for a reference to
+ * +self+ */
+static Query *bq_copy_for_rewrite(Query *self)
+{
+    int i;
+    Query *new_self = q_new(BooleanQuery);
+    memcpy(new_self, self, sizeof(BooleanQuery));
+    BQ(new_self)->clauses = ALLOC_N(BooleanClause *, BQ(self)->clause_capa);
+    memcpy(BQ(new_self)->clauses, BQ(self)->clauses,
+           BQ(self)->clause_cnt * sizeof(BooleanClause *));
+    for (i = 0; i < BQ(self)->clause_cnt; i++) {
+        REF(BQ(self)->clauses[i]);
+    }
+    self->ref_cnt--;
+    new_self->ref_cnt = 1;
+    return new_self;
+}
+
 static Query *bq_rewrite(Query *self, IndexReader *ir)
 {
     int i;
@@ -1378,19 +1396,7 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         if (clause->is_prohibited == false) has_non_prohibited_clause = true;
         if (rq != clause->query) {
             if (!rewritten) {
-                int j;
-                Query *new_self = q_new(BooleanQuery);
-                memcpy(new_self, self, sizeof(BooleanQuery));
-                BQ(new_self)->clauses = ALLOC_N(BooleanClause *,
-                                                BQ(self)->clause_capa);
-                memcpy(BQ(new_self)->clauses, BQ(self)->clauses,
-                       BQ(self)->clause_capa * sizeof(BooleanClause *));
-                for (j = 0; j < clause_cnt; j++) {
-                    REF(BQ(self)->clauses[j]);
-                }
-                self->ref_cnt--;
-                self = new_self;
-                self->ref_cnt = 1;
+                self = bq_copy_for_rewrite(self);
                 rewritten = true;
             }
             DEREF(clause);
@@ -1400,6 +1406,10 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         }
     }
     if (clause_cnt > 0 && !has_non_prohibited_clause) {
+        if (!rewritten) {
+            /* never add the clause to the query we were given */
+            self = bq_copy_for_rewrite(self);
+        }
         bq_add_query_nr(self, maq_new(), BC_MUST);
     }
 
diff --git a/c/src/q_span.c b/c/src/q_span.c
index e0fee0c..a66bd5c 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1751,15 +1751,20 @@ static HashSet *spanfq_get_terms(Query *self)
 
 static Query *spanfq_rewrite(Query *self, IndexReader *ir)
 {
-    Query *q, *rq;
+    Query *q, *rq, *rewritten;
 
     q = SpFQ(self)->match;
     rq = q->rewrite(q, ir);
-    q_deref(q);
-    SpFQ(self)->match = rq;
+    if (rq == q) {
+        q_deref(rq);
+        self->ref_cnt++;
+        return self;                /* no clauses rewrote */
+    }
 
-    self->ref_cnt++;
-    return self;                    /* no clauses rewrote */
+    /* leave self as it is; it may be rewritten again for another reader */
+    rewritten = spanfq_new_nr(rq, SpFQ(self)->end);
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanfq_destroy_i(Query *self)
@@ -1883,18 +1888,28 @@ static SpanEnum *spanoq_get_spans(Query *self, IndexReader *ir)
 static Query *spanoq_rewrite(Query *self, IndexReader *ir)
 {
     SpanOrQuery *soq = SpOQ(self);
+    Query *rewritten = spanoq_new();
+    bool changed = false;
     int i;
 
-    /* replace clauses with their rewritten queries */
+    /* collect the rewritten clauses, leaving self as it is; it may be
+     * rewritten again for another reader */
     for (i = 0; i < soq->c_cnt; i++) {
         Query *clause = soq->clauses[i];
-        Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        soq->clauses[i] = rewritten;
+        Query *rq = clause->rewrite(clause, ir);
+        if (rq != clause) {
+            changed = true;
+        }
+        spanoq_add_clause_nr(rewritten, rq);
     }
 
-    self->ref_cnt++;
-    return self;
+    if (!changed) {
+        q_deref(rewritten);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanoq_destroy_i(Query *self)
@@ -2068,16 +2083,28 @@ static SpanEnum *spannq_get_spans(Query *self, IndexReader *ir)
 static Query *spannq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNearQuery *snq = SpNQ(self);
+    Query *rewritten = spannq_new(snq->slop, snq->in_order);
+    bool changed = false;
     int i;
+
+    /* collect the rewritten clauses, leaving self as it is; it may be
+     * rewritten again for another reader */
     for (i = 0; i < snq->c_cnt; i++) {
         Query *clause = snq->clauses[i];
-        Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        snq->clauses[i] = rewritten;
+        Query *rq = clause->rewrite(clause, ir);
+        if (rq != clause) {
+            changed = true;
+        }
+        spannq_add_clause_nr(rewritten, rq);
     }
 
-    self->ref_cnt++;
-    return self;
+    if (!changed) {
+        q_deref(rewritten);
+        self->ref_cnt++;
+        return self;
+    }
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spannq_destroy(Query *self)
@@ -2217,22 +2244,22 @@ static HashSet *spanxq_get_terms(Query *self)
 static Query *spanxq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNotQuery *sxq = SpXQ(self);
-    Query *q, *rq;
+    Query *inc, *exc, *rewritten;
 
-    /* rewrite inclusive query */
-    q = sxq->inc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->inc = rq;
+    inc = sxq->inc->rewrite(sxq->inc, ir);  /* rewrite inclusive query */
+    exc = sxq->exc->rewrite(sxq->exc, ir);  /* rewrite exclusive query */
 
-    /* rewrite exclusive query */
-    q = sxq->exc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->exc = rq;
+    if (inc == sxq->inc && exc == sxq->exc) {
+        q_deref(inc);
+        q_deref(exc);
+        self->ref_cnt++;
+        return self;
+    }
 
-    self->ref_cnt++;
-    return self;
+    /* leave self as it is; it may be rewritten again for another reader */
+    rewritten = spanxq_new_nr(inc, exc);
+    rewritten->boost = self->boost;
+    return rewritten;
 }
 
 static void spanxq_destroy(Query *self)
-- 
2.43.0


From a8e26648d85aff078011711a097cbf347a7c4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:05 +0000
Subject: [PATCH 27/89] fix: scanning a bit vector from beyond its end reads
 nothing outside it

---
 c/include/bitvector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 014aff6..5c1716e 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -277,11 +277,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Keep only the bits above this position */
     word &= ~0 << (bit & 31);
     if (word) {
@@ -327,11 +329,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_unset_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Set all of the bits below this position */
     word |= (1 << (bit & 31)) - 1;
     if (~word) {
-- 
2.43.0


From 1c72425ebe73513c63bd3fcee071a242f45caa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:05 +0000
Subject: [PATCH 28/89] fix: constant score scorers keep their own place in the
 shared filter bits

---
 c/src/q_const_score.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 0269f3d..5723883 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -15,6 +15,7 @@ typedef struct ConstantScoreScorer
 {
     Scorer      super;
     BitVector  *bv;
+    int         next_doc;   /* the bit vector is shared so keep our own place */
     float       score;
 } ConstantScoreScorer;
 
@@ -25,12 +26,18 @@ static float cssc_score(Scorer *self)
 
 static bool cssc_next(Scorer *self)
 {
-    return ((self->doc = bv_scan_next(CScSc(self)->bv)) >= 0);
+    return self->skip_to(self, CScSc(self)->next_doc);
 }
 
 static bool cssc_skip_to(Scorer *self, int doc_num)
 {
-    return ((self->doc = bv_scan_next_from(CScSc(self)->bv, doc_num)) >= 0);
+    int doc = -1;
+    if (CScSc(self)->next_doc >= 0) {
+        doc = bv_scan_next_from(CScSc(self)->bv, doc_num);
+    }
+    self->doc = doc;
+    CScSc(self)->next_doc = doc >= 0 ? doc + 1 : -1;
+    return doc >= 0;
 }
 
 static Explanation *cssc_explain(Scorer *self, int doc_num)
@@ -45,6 +52,7 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
     Filter *filter  = CScQ(weight->query)->filter;
 
     CScSc(self)->score  = weight->value;
+    CScSc(self)->next_doc = 0;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
 
     self->score     = &cssc_score;
-- 
2.43.0


From e3dbfa7d2087f9fb57be78c5c1fb4690408cae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:02 +0000
Subject: [PATCH 29/89] fix: a rewritten boolean query does not free the
 similarity of the original

---
 c/src/q_boolean.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index baba4fc..a366e57 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1344,6 +1344,7 @@ static Query *bq_copy_for_rewrite(Query *self)
     Query *new_self = q_new(BooleanQuery);
     memcpy(new_self, self, sizeof(BooleanQuery));
     BQ(new_self)->clauses = ALLOC_N(BooleanClause *, BQ(self)->clause_capa);
+    BQ(new_self)->similarity = NULL; /* belongs to self */
     memcpy(BQ(new_self)->clauses, BQ(self)->clauses,
            BQ(self)->clause_cnt * sizeof(BooleanClause *));
     for (i = 0; i < BQ(self)->clause_cnt; i++) {
-- 
2.43.0


From 2b3a01dd003675de5638192121e9b4ac3dde20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 30/89] fix: constant score queries never return deleted
 documents

---
 c/src/q_const_score.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 5723883..72386c3 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -14,6 +14,7 @@
 typedef struct ConstantScoreScorer
 {
     Scorer      super;
+    IndexReader *ir;
     BitVector  *bv;
     int         next_doc;   /* the bit vector is shared so keep our own place */
     float       score;
@@ -31,9 +32,14 @@ static bool cssc_next(Scorer *self)
 
 static bool cssc_skip_to(Scorer *self, int doc_num)
 {
+    IndexReader *ir = CScSc(self)->ir;
     int doc = -1;
     if (CScSc(self)->next_doc >= 0) {
         doc = bv_scan_next_from(CScSc(self)->bv, doc_num);
+        /* documents may have been deleted since the bits were cached */
+        while (doc >= 0 && ir->is_deleted(ir, doc)) {
+            doc = bv_scan_next_from(CScSc(self)->bv, doc + 1);
+        }
     }
     self->doc = doc;
     CScSc(self)->next_doc = doc >= 0 ? doc + 1 : -1;
@@ -53,6 +59,7 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
 
     CScSc(self)->score  = weight->value;
     CScSc(self)->next_doc = 0;
+    CScSc(self)->ir     = ir;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
 
     self->score     = &cssc_score;
-- 
2.43.0


From cf7982e11c8e0074967eebc42b0c8b5fc3cc6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:11 +0000
Subject: [PATCH 31/89] fix: filters used before undeleting accept the
 undeleted documents afterwards

---
 c/src/index.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index fa7ad60..d3cdf97 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4032,6 +4032,11 @@ void ir_undelete_all(IndexReader *ir)
         ir->acquire_write_lock(ir);
         ir->undelete_all_i(ir);
         ir->has_changes = true;
+        if (ir->cache) {
+            /* cached filters don't have the undeleted documents */
+            h_destroy(ir->cache);
+            ir->cache = NULL;
+        }
     XFINALLY
         mutex_unlock(&ir->mutex);
     XENDTRY
-- 
2.43.0


From f99296912b36c31cf933b805d6ce2a6b50a78828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:32 +0000
Subject: [PATCH 32/89] fix: an unscored search with limit 0 returns no
 document

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9f7a937..48e0d0b 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1191,7 +1191,7 @@ static int isea_search_unscored_w(Searcher *self,
     int count = 0;
     Scorer *scorer = weight->scorer(weight, ISEA(self)->ir);
     if (scorer) {
-        if (scorer->skip_to(scorer, offset_docnum)) {
+        if (limit > 0 && scorer->skip_to(scorer, offset_docnum)) {
             do {
                 buf[count++] = scorer->doc;
             } while (count < limit && scorer->next(scorer));
-- 
2.43.0


From 0cc9e94f439d9c735abdd0fbf13b125cfd08f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:32 +0000
Subject: [PATCH 33/89] fix: explanations of documents a clause does not match
 are 0

---
 c/src/q_const_score.c    | 2 +-
 c/src/q_filtered_query.c | 5 +++++
 c/src/q_match_all.c      | 2 +-
 c/src/q_term.c           | 3 +--
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 72386c3..43f8cf0 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -95,7 +95,7 @@ static Explanation *csw_explain(Weight *self, IndexReader *ir, int doc_num)
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     }
     else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "ConstantScoreQuery(%s), does not match id %d",
                         filter_str, doc_num);
     }
diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 66065c2..22f4e39 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -118,6 +118,11 @@ static float fqw_get_value(Weight *self)
 static Explanation *fqw_explain(Weight *self, IndexReader *ir, int doc_num)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
+    Filter *filter = FQQ(self->query)->filter;
+
+    if (!bv_get(filt_get_bv(filter, ir), doc_num)) {
+        return expl_new(0.0, "doc %d was filtered out", doc_num);
+    }
     return sub_weight->explain(sub_weight, ir, doc_num);
 }
 
diff --git a/c/src/q_match_all.c b/c/src/q_match_all.c
index 2c865aa..f2df880 100644
--- a/c/src/q_match_all.c
+++ b/c/src/q_match_all.c
@@ -84,7 +84,7 @@ static Explanation *maw_explain(Weight *self, IndexReader *ir, int doc_num)
         expl_add_detail(expl, expl_new(self->query->boost, "boost"));
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     } else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "MatchAllQuery: doc %d was deleted", doc_num);
     }
 
diff --git a/c/src/q_term.c b/c/src/q_term.c
index 5e1a155..cd7a88d 100644
--- a/c/src/q_term.c
+++ b/c/src/q_term.c
@@ -99,8 +99,7 @@ static Explanation *tsc_explain(Scorer *self, int doc_num)
     Query *query = ts->weight->get_query(ts->weight);
     int tf = 0;
 
-    tsc_skip_to(self, doc_num);
-    if (self->doc == doc_num) {
+    if (tsc_skip_to(self, doc_num) && self->doc == doc_num) {
         tf = ts->freqs[ts->pointer];
     }
     return expl_new(sim_tf(self->similarity, (float)tf),
-- 
2.43.0


From 4cdf8a9329694b0c3918cf859125adf4e51e8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:32 +0000
Subject: [PATCH 34/89] fix: clauses without a scorer count for the
 coordination factor, as in explanations

---
 c/src/q_boolean.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index a366e57..7ecf6dd 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1154,6 +1154,10 @@ static Scorer *bw_scorer(Weight *self, IndexReader *ir)
             bsc->destroy(bsc);
             return NULL;
         }
+        else if (!clause->is_prohibited) {
+            /* a clause that can't match still counts for the coordination */
+            BSc(bsc)->coordinator->max_coord++;
+        }
     }
 
     return bsc;
-- 
2.43.0


From 6a482e64ca461c6455855eeb683b56a8a5e68278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:32 +0000
Subject: [PATCH 35/89] fix: sloppy phrases with repeated terms match
 independently of the documents visited before

---
 c/src/q_phrase.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 3475c70..d7dbe47 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -125,6 +125,11 @@ static int pp_pos_cmp(const void *const p1, const void *const p2)
     return PP_pp(p1)->position - PP_pp(p2)->position;
 }
 
+static int pp_offset_cmp(const void *const p1, const void *const p2)
+{
+    return PP_pp(p1)->offset - PP_pp(p2)->offset;
+}
+
 static bool pp_less_than(const PhPos *pp1, const PhPos *pp2)
 {
     if (pp1->position == pp2->position) {
@@ -463,6 +468,10 @@ static float sphsc_phrase_freq(Scorer *self)
     bool check_repeats = phsc->check_repeats;
     float freq = 0.0;
 
+    /* repeated terms are resolved in phrase order, no matter in which order
+     * the documents before this one left the phrase positions */
+    qsort(phsc->phrase_pos, pp_cnt, sizeof(PhPos *), &pp_offset_cmp);
+
     for (i = 0; i < pp_cnt; i++) {
         bool res;
         pp = phsc->phrase_pos[i];
-- 
2.43.0


From 5f4a4a40492f48be9fef92318e5a47b86af6ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:32 +0000
Subject: [PATCH 36/89] fix: explaining an empty phrase or multi-term query

---
 c/src/q_multi_term.c |  4 +++-
 c/src/q_phrase.c     | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/c/src/q_multi_term.c b/c/src/q_multi_term.c
index 873f93f..b4c9d37 100644
--- a/c/src/q_multi_term.c
+++ b/c/src/q_multi_term.c
@@ -412,7 +412,9 @@ static Explanation *multi_tw_explain(Weight *self, IndexReader *ir, int doc_num)
         pos += sprintf(doc_freqs + pos, "(%s=%d) + ", term, doc_freq);
         total_doc_freqs += doc_freq;
     }
-    pos -= 2; /* remove " + " from the end */
+    if (pos > 0) {
+        pos -= 2; /* remove " + " from the end */
+    }
     sprintf(doc_freqs + pos, "= %d", total_doc_freqs);
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index d7dbe47..f2c5a05 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -636,7 +636,7 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
             len += strlen(terms[j]) + 30;
         }
     }
-    doc_freqs = ALLOC_N(char, len);
+    doc_freqs = ALLOC_N(char, len + 1);
     for (i = 0; i < phq->pos_cnt; i++) {
         char **terms = phq->positions[i].terms;
         const int t_cnt = ary_size(terms);
@@ -646,7 +646,9 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
                            term, ir->doc_freq(ir, field_num, term));
         }
     }
-    pos -= 2; /* remove ", " from the end */
+    if (pos > 0) {
+        pos -= 2; /* remove ", " from the end */
+    }
     doc_freqs[pos] = 0;
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
@@ -673,9 +675,13 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
                           query_str, doc_num);
     free(query_str);
 
-    scorer = self->scorer(self, ir);
-    tf_expl = scorer->explain(scorer, doc_num);
-    scorer->destroy(scorer);
+    if ((scorer = self->scorer(self, ir)) != NULL) {
+        tf_expl = scorer->explain(scorer, doc_num);
+        scorer->destroy(scorer);
+    }
+    else {
+        tf_expl = expl_new(0.0, "no terms were found");
+    }
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
-- 
2.43.0


From d84fcfa9c0dbc02eaf043b20c3c39fb6ff148602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:09 +0000
Subject: [PATCH 37/89] fix: sorting by a missing field raises and leaves the
 reader usable

---
 c/src/sort.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/c/src/sort.c b/c/src/sort.c
index 82c7588..1a1ea3f 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -422,13 +422,14 @@ static void sort_field_auto_evaluate(SortField *sf, char *text)
 
 static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
 {
-    void *index = NULL;
+    void *volatile index = NULL;
 
     if (sf->type > SORT_TYPE_DOC) {
         FieldIndex *field_index = NULL;
         if (sf->type == SORT_TYPE_AUTO) {
             TermEnum *te = ir_terms(ir, sf->field);
-            if (!te->next(te) && (ir->num_docs(ir) > 0)) {
+            if (!te || (!te->next(te) && (ir->num_docs(ir) > 0))) {
+                if (te) te->close(te);
                 RAISE(ARG_ERROR,
                       "Cannot sort by field \"%s\" as there are no terms "
                       "in that field in the index.", S(sf->field));
@@ -437,9 +438,12 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
             te->close(te);
         }
         mutex_lock(&ir->field_index_mutex);
-        field_index = field_index_get(ir, sf->field, sf->field_index_class);
-        mutex_unlock(&ir->field_index_mutex);
-        index = field_index->index;
+        TRY
+            field_index = field_index_get(ir, sf->field, sf->field_index_class);
+            index = field_index->index;
+        XFINALLY
+            mutex_unlock(&ir->field_index_mutex);
+        XENDTRY
     }
     return comparator_new(index, sf->reverse, sf->compare);
 }
-- 
2.43.0


From fd6262008b762acc21a74b7a865b6c2ccb3e8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:09 +0000
Subject: [PATCH 38/89] fix: text that is not a number sorts as 0 rather than
 as an uninitialised value

---
 c/src/field_index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/field_index.c b/c/src/field_index.c
index c99357f..bb492b1 100644
--- a/c/src/field_index.c
+++ b/c/src/field_index.c
@@ -141,7 +141,7 @@ static void integer_handle_term(void *index_ptr,
                                 const char *text)
 {
     long *index = (long *)index_ptr;
-    long val;
+    long val = 0; /* text that isn't a number */
     sscanf(text, "%ld", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
@@ -178,7 +178,7 @@ static void float_handle_term(void *index_ptr,
                               const char *text)
 {
     float *index = (float *)index_ptr;
-    float val;
+    float val = 0.0f; /* text that isn't a number */
     sscanf(text, "%g", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
-- 
2.43.0


From 5cdff42fa50f3e1b7c703d8bb9ca7e4b4864ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 39/89] fix: undeleted documents get their sort keys back

---
 c/src/index.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index d3cdf97..a200388 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4037,6 +4037,13 @@ void ir_undelete_all(IndexReader *ir)
             h_destroy(ir->cache);
             ir->cache = NULL;
         }
+        mutex_lock(&ir->field_index_mutex);
+        if (ir->field_index_cache) {
+            /* nor do the sort keys of fields */
+            h_destroy(ir->field_index_cache);
+            ir->field_index_cache = NULL;
+        }
+        mutex_unlock(&ir->field_index_mutex);
     XFINALLY
         mutex_unlock(&ir->mutex);
     XENDTRY
-- 
2.43.0


From 875527214c8af46b712ce6dc3c13510722450d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:32 +0000
Subject: [PATCH 40/89] fix: fall back to segments_0 when segments_1 is
 incomplete

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index a200388..b99cdc9 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -974,10 +974,10 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
             /* TODO:LOG "primary Exception on '" + segmentFileName + "': " +
              * err + "'; will retry: retry=" + retry + "; gen = " + gen */
 
-            if (!retry && gen > 1) {
+            if (!retry && gen > 0) {
                 /* This is our first time trying this segments file (because
                  * retry is false), and, there is possibly a segments_(N-1)
-                 * (because gen > 1).  So, check if the segments_(N-1) exists
+                 * (because gen > 0).  So, check if the segments_(N-1) exists
                  * and try it if so: */
                 char prev_seg_file_name[SEGMENT_NAME_MAX_LENGTH];
                 segfn_for_generation(prev_seg_file_name, gen - 1);
-- 
2.43.0


From 13a23233447130b313a720974c1d3ce835034322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:32 +0000
Subject: [PATCH 41/89] fix: opening a writer keeps the commit it opened

After a crash the directory may hold an incomplete segments file of a higher
generation than the one that was read; it was kept and the good one deleted.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index b99cdc9..4f091bb 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3848,7 +3848,7 @@ void deleter_find_deletable_files(Deleter *dlr)
     /* Then go through all files in the Directory that are Ferret index files,
      * and add to deletable if they are not referenced by the current segments
      * info: */
-    sis_curr_seg_file_name(dfa.curr_seg_file_name, store);
+    segfn_for_generation(dfa.curr_seg_file_name, sis->generation);
 
     store->each(store, &deleter_find_deletable_files_i, &dfa);
     h_destroy(dfa.current);
-- 
2.43.0


From d2077fc8105177b2ea7bd996e929ede1c1dd5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:32 +0000
Subject: [PATCH 42/89] fix: committing a reader removes the commit it read,
 not the newest name

With an incomplete segments file left by a crash the newest name in the
directory was the one the commit was about to write.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 4f091bb..887caf7 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4133,7 +4133,7 @@ static void ir_commit_i(IndexReader *ir)
             char curr_seg_fn[MAX_FILE_PATH];
             mutex_lock(&ir->store->mutex);
 
-            sis_curr_seg_file_name(curr_seg_fn, ir->store);
+            segfn_for_generation(curr_seg_fn, ir->sis->generation);
 
             ir->commit_i(ir);
             sis_write(ir->sis, ir->store, ir->deleter);
-- 
2.43.0


From b7dca613e4b4bac9ce9c9d50bd714349ea65fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:32 +0000
Subject: [PATCH 43/89] fix: a file that cannot be deleted now is deleted later

The deleter put the file on its list again but did not handle the error.
---
 c/src/index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/index.c b/c/src/index.c
index 887caf7..6a1483b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3715,6 +3715,7 @@ void deleter_delete_file(Deleter *dlr, char *file_name)
         }
         hs_del(dlr->pending, file_name);
     XCATCHALL
+        HANDLED();
         hs_add(dlr->pending, estrdup(file_name));
     XENDTRY
 }
-- 
2.43.0


From c55caf3a6c1956c0fd5d0d056fc288862c6ffcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:32 +0000
Subject: [PATCH 44/89] fix: a failed commit leaves the last one in place

When the segments file could not be written sis_write closed a stream that was
never opened or closed one twice, and left half a file of a new generation
behind; after two of them the last commit was out of reach.
---
 c/src/index.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 6a1483b..957a601 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1133,22 +1133,31 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
     const int sis_size = sis->size;
     char buf[SEGMENT_NAME_MAX_LENGTH];
     sis->generation++;
+    sis->version++; /* every write changes the index */
+    segfn_for_generation(buf, sis->generation);
 
     TRY
-        os = store->new_output(store,
-                               segfn_for_generation(buf, sis->generation));
-        os_write_u32(os, FORMAT);
-        os_write_u64(os, ++(sis->version)); /* every write changes the index */
-        os_write_u64(os, sis->counter);
-        os_write_vint(os, sis->size);
-        for (i = 0; i < sis_size; i++) {
-            si_write(sis->segs[i], os);
-        }
-        fis_write(sis->fis, os);
-    XFINALLY
-        os_close(os);
+        TRY
+            os = store->new_output(store, buf);
+            os_write_u32(os, FORMAT);
+            os_write_u64(os, sis->version);
+            os_write_u64(os, sis->counter);
+            os_write_vint(os, sis->size);
+            for (i = 0; i < sis_size; i++) {
+                si_write(sis->segs[i], os);
+            }
+            fis_write(sis->fis, os);
+        XFINALLY
+            if (NULL != os) os_close(os);
+        XENDTRY
+    XCATCHALL
+        /* nothing was committed; do not leave half a segments file behind */
+        store->remove(store, buf);
+        sis->generation--;
+        sis->version--;
     XENDTRY
 
+    os = NULL;
     TRY
         os = store->new_output(store, SEGMENTS_GEN_FILE_NAME);
         os_write_u64(os, sis->generation);
@@ -1156,8 +1165,8 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
     XFINALLY
         /* It's OK if we fail to write this file since it's
          * used only as one of the retry fallbacks. */
+        if (NULL != os) os_close(os);
         HANDLED();
-        os_close(os);
     XENDTRY
 
     if (deleter && sis->generation > 0) {
-- 
2.43.0


From 44fa17efac4bfe0d83e7ca831ead34318b1b130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 45/89] fix: a new output replaces the file of that name

An older, longer file kept its tail behind the new contents.
---
 c/src/fs_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 0db30c0..95be81a 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -266,7 +266,8 @@ static OutStream *fs_new_output(Store *store, const char *filename)
 {
     char path[MAX_FILE_PATH];
     int fd = open(join_path(path, store->dir.path, filename),
-                  O_WRONLY | O_CREAT | O_BINARY, store->file_mode);
+                  O_WRONLY | O_CREAT | O_TRUNC | O_BINARY,
+                  store->file_mode);
     OutStream *os;
     if (fd < 0) {
         RAISE(IO_ERROR, "couldn't create OutStream %s: <%s>",
-- 
2.43.0


From 3fc88f7f2be004c3cc1a33ffe40db372d2b62463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 46/89] fix: touching a file that cannot be created is an error

---
 c/src/fs_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 95be81a..8c70697 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -49,7 +49,7 @@ static void fs_touch(Store *store, const char *filename)
     int f;
     char path[MAX_FILE_PATH];
     join_path(path, store->dir.path, filename);
-    if ((f = creat(path, store->file_mode)) == 0) {
+    if ((f = creat(path, store->file_mode)) < 0) {
         RAISE(IO_ERROR, "couldn't create file %s: <%s>", path,
               strerror(errno));
     }
-- 
2.43.0


From 7df795146d722737e9527f6d863555f2554ddd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 47/89] fix: an index exists when there is a segments file

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 957a601..ba88d7b 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3958,7 +3958,7 @@ static IndexReader *ir_setup(IndexReader *ir, Store *store, SegmentInfos *sis,
 
 bool ir_index_exists(Store *store)
 {
-    return sis_current_segment_generation(store) != 1;
+    return sis_current_segment_generation(store) != -1;
 }
 
 int ir_get_field_num(IndexReader *ir, Symbol field)
-- 
2.43.0


From 8f5b6ccda0513f1735e5ddf8c97429ccae943b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:09 +0000
Subject: [PATCH 48/89] fix: a failed commit does not keep the store locked

The mutex of the store stayed locked when writing a commit raised an error, so
that the next use of the store in the process hung.
---
 c/src/index.c | 94 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 39 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index ba88d7b..9e0255a 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4143,14 +4143,16 @@ static void ir_commit_i(IndexReader *ir)
             char curr_seg_fn[MAX_FILE_PATH];
             mutex_lock(&ir->store->mutex);
 
-            segfn_for_generation(curr_seg_fn, ir->sis->generation);
+            TRY
+                segfn_for_generation(curr_seg_fn, ir->sis->generation);
 
-            ir->commit_i(ir);
-            sis_write(ir->sis, ir->store, ir->deleter);
-
-            if (ir->deleter) deleter_delete_file(ir->deleter, curr_seg_fn);
+                ir->commit_i(ir);
+                sis_write(ir->sis, ir->store, ir->deleter);
 
-            mutex_unlock(&ir->store->mutex);
+                if (ir->deleter) deleter_delete_file(ir->deleter, curr_seg_fn);
+            XFINALLY
+                mutex_unlock(&ir->store->mutex);
+            XENDTRY
 
             if (NULL != ir->write_lock) {
                 /* release write lock */
@@ -4169,8 +4171,11 @@ static void ir_commit_i(IndexReader *ir)
 void ir_commit(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir_commit_i(ir);
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir_commit_i(ir);
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_close(IndexReader *ir)
@@ -6292,22 +6297,24 @@ static void iw_merge_segments(IndexWriter *iw, const int min_seg,
     si->doc_cnt = sm_merge(merger);
 
     mutex_lock(&iw->store->mutex);
-    /* delete merged segments */
-    for (i = min_seg; i < max_seg; i++) {
-        si_delete_files(sis->segs[i], iw->fis, iw->deleter);
-    }
-
-    sis_del_from_to(sis, min_seg, max_seg);
+    TRY
+        /* delete merged segments */
+        for (i = min_seg; i < max_seg; i++) {
+            si_delete_files(sis->segs[i], iw->fis, iw->deleter);
+        }
 
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
+        sis_del_from_to(sis, min_seg, max_seg);
 
-    sis_write(sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
 
-    mutex_unlock(&iw->store->mutex);
+        sis_write(sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     sm_destroy(merger);
 }
@@ -6358,16 +6365,17 @@ static void iw_flush_ram_segment(IndexWriter *iw)
     dw_flush(iw->dw);
 
     mutex_lock(&iw->store->mutex);
-
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
-
-    mutex_unlock(&iw->store->mutex);
+    TRY
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
+        /* commit the segments file and the fields file */
+        sis_write(iw->sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     iw_maybe_merge_segments(iw);
 }
@@ -6429,8 +6437,11 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
         mutex_unlock(&iw->mutex);
@@ -6468,8 +6479,11 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
         mutex_unlock(&iw->mutex);
@@ -6854,10 +6868,12 @@ void iw_add_readers(IndexWriter *iw, IndexReader **readers, const int r_cnt)
     }
 
     mutex_lock(&iw->store->mutex);
-
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    mutex_unlock(&iw->store->mutex);
+    TRY
+        /* commit the segments file and the fields file */
+        sis_write(iw->sis, iw->store, iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     iw_optimize_i(iw);
     mutex_unlock(&iw->mutex);
-- 
2.43.0


From f1bdf96ae716b84d1df310b9078cd9bb981c4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 49/89] fix: reading a segments file cut short before the
 fields is an error

It dereferenced a null pointer.
---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 9e0255a..f960874 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -433,7 +433,7 @@ FieldInfos *fis_read(InStream *is)
             }
         } while (0);
     XCATCHALL
-        fis_deref(fis);
+        if (NULL != fis) fis_deref(fis);
     XENDTRY
 
     return fis;
-- 
2.43.0


From fcd6f3b3711a88761f1f19a1f3d7afc53c916a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:19 +0000
Subject: [PATCH 50/89] fix: an incomplete segments file does not make readers
 stale

The version was taken from the newest segments file even when a crash had left
only its beginning, so that readers were out of date for ever.
---
 c/src/index.c | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index f960874..41bdf86 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1175,30 +1175,13 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
     }
 }
 
-static void sis_read_ver_i(Store *store, FindSegmentsFile *fsf)
-{
-    InStream *is;
-    u64 version = 0;
-    char seg_file_name[SEGMENT_NAME_MAX_LENGTH];
-
-    segfn_for_generation(seg_file_name, (u64)fsf->generation);
-    is = store->open_input(store, seg_file_name);
-
-    TRY
-        is_read_u32(is); // format
-        version = is_read_u64(is);
-    XFINALLY
-        is_close(is);
-    XENDTRY
-
-    fsf->ret.uint64 = version;
-}
-
 u64 sis_read_current_version(Store *store)
 {
-    FindSegmentsFile fsf;
-    sis_find_segments_file(store, &fsf, &sis_read_ver_i);
-    return fsf.ret.uint64;
+    /* read all of it; a file that is not complete is not a commit */
+    SegmentInfos *sis = sis_read(store);
+    const u64 version = sis->version;
+    sis_destroy(sis);
+    return version;
 }
 
 /****************************************************************************
-- 
2.43.0


From 282573d32d40029968a125d40b2c5b74b32b8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:31 +0000
Subject: [PATCH 51/89] fix: files that only share an extension with the index
 are not deleted

Any file ending in .del, .gen, .cfs, .f90 and so on was taken for one of the
index and removed when a writer opened or an index was created.
---
 c/src/index.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 41bdf86..b3d66b3 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3627,10 +3627,14 @@ bool file_name_filter_is_index_file(const char *file_name, bool include_locks)
     if (NULL == fn_extensions) file_name_filter_init();
     if (NULL != p) {
         char *extension = p + 1;
-        if (NULL != h_get(fn_extensions, extension)) {
+        /* the files of a segment are named after it: _N.ext or _N_G.ext */
+        const bool is_segment_file = '_' == *file_name
+            && strlen(file_name) < SEGMENT_NAME_MAX_LENGTH;
+        if (is_segment_file && NULL != h_get(fn_extensions, extension)) {
             return true;
         }
-        else if ((*extension == 'f' || *extension == 's')
+        else if (is_segment_file
+                 && (*extension == 'f' || *extension == 's')
                  && *(extension + 1) >= '0'
                  && *(extension + 1) <= '9') {
             return true;
-- 
2.43.0


From ebe4a1a389c86d834aceb0332341f56505effea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:26 +0000
Subject: [PATCH 52/89] fix: a file whose name only begins like the segments
 file is not deleted

---
 c/src/index.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index b3d66b3..5f6c8bd 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3644,8 +3644,9 @@ bool file_name_filter_is_index_file(const char *file_name, bool include_locks)
             return true;
         }
     }
-    else if (0 == strncmp(SEGMENTS_FILE_NAME, file_name,
-                          sizeof(SEGMENTS_FILE_NAME) - 1)) {
+    else if (0 == strcmp(SEGMENTS_FILE_NAME, file_name)
+             || 0 == strncmp(SEGMENTS_FILE_NAME"_", file_name,
+                             sizeof(SEGMENTS_FILE_NAME))) {
         return true;
     }
     return false;
-- 
2.43.0


From 57948c2fb96c13a4cf5c97dce2b2c17732e644c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:52 +0000
Subject: [PATCH 53/89] fix: deletions made after undeleting get a file name of
 their own

Undeleting forgot which generations of the .del file had been used. The next
deletion reused a name, and a reader opening an older commit at that moment
saw its segments with the deletions of the new one.
---
 c/src/index.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 5f6c8bd..a9f0e10 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -110,7 +110,7 @@ char *fn_for_generation(char *buf,
                         const char *ext,
                         i64 gen)
 {
-    if (-1 == gen) {
+    if (gen < 0) {
         return NULL;
     }
     else {
@@ -4433,12 +4433,13 @@ static void sr_commit_i(IndexReader *ir)
             deleter_queue_file(ir->deleter, tmp_file_name);
         }
         if (SR(ir)->undelete_all) {
-            si->del_gen = -1;
+            /* no deletions, but remember which names have been used */
+            if (si->del_gen >= 0) si->del_gen = -2 - si->del_gen;
             SR(ir)->undelete_all = false;
         }
         else {
             /* (SR(ir)->deleted_docs_dirty) re-write deleted */
-            si->del_gen++;
+            si->del_gen = si->del_gen < 0 ? -1 - si->del_gen : si->del_gen + 1;
             fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
             bv_write(SR(ir)->deleted_docs, ir->store, tmp_file_name);
             SR(ir)->deleted_docs_dirty = false;
-- 
2.43.0


From 372f3049b3ffecf3386d48a5799b1cfc2f832755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 54/89] fix: touching a file in a memory store keeps a copy of
 the name

The hash key was the caller's string, which may change or be freed.
---
 c/src/ram_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6052fb1..2af0b47 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -40,7 +40,8 @@ static void rf_close(void *p)
 static void ram_touch(Store *store, const char *filename)
 {
     if (h_get(store->dir.ht, filename) == NULL) {
-        h_set(store->dir.ht, filename, rf_new(filename));
+        RAMFile *rf = rf_new(filename);
+        h_set(store->dir.ht, rf->name, rf);
     }
 }
 
-- 
2.43.0


From 9ea15979e394e7f1a376f47f5ef22003be787595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 55/89] fix: a new output in a memory store replaces the file
 of that name

Rewriting a file with fewer bytes left the rest of the old ones.
---
 c/src/ram_store.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 2af0b47..36743ab 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -285,6 +285,7 @@ static OutStream *ram_new_output(Store *store, const char *filename)
         rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
+    rf->len = 0;
     REF(rf);
     os->pointer = 0;
     os->file.rf = rf;
-- 
2.43.0


From a87ba2ed1ccee5121380a5123f2cd550482a97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 56/89] fix: reading past the end of a file in a memory store
 is an error

---
 c/src/ram_store.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 36743ab..248cd28 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -300,9 +300,15 @@ static void rami_read_i(InStream *is, uchar *b, int len)
     int offset = 0;
     int buffer_number, buffer_offset, bytes_in_buffer, bytes_to_copy;
     int remainder = len;
-    off_t start = is->d.pointer;
+    off_t start = is_pos(is);
     uchar *buffer;
 
+    if (start + len > rf->len) {
+        RAISE(EOF_ERROR, "Tried to read past end of file. File length is "
+              "<%"OFF_T_PFX"d> and tried to read to <%"OFF_T_PFX"d>",
+              rf->len, start + len);
+    }
+
     while (remainder > 0) {
         buffer_number = (int) (start / BUFFER_SIZE);
         buffer_offset = start % BUFFER_SIZE;
-- 
2.43.0


From a350a2a919f3b4b64633086921fca05e6e7f7472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:30 +0000
Subject: [PATCH 57/89] fix: a hash's deleted-slot marker can't be a caller's
 key

The markers were string literals, which the linker may merge with an equal
literal used as a key: an empty literal key then reads as a deleted slot.
---
 c/src/hash.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index 9d379b8..31540fc 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -11,8 +11,10 @@
  * the algorithm can be found in the file dictobject.c in Python's src
  ****************************************************************************/
 
-static char *dummy_key = "";
-static char *dummy_int_key = "i";
+/* These must be objects of their own. The compiler is free to give a string
+ * literal here the same address as an equal literal somewhere else. */
+static char dummy_key[] = "";
+static char dummy_int_key[] = "i";
 
 
 #define PERTURB_SHIFT 5
-- 
2.43.0


From 238c10a37a8f6a009322c93f8eabf37a0cff5db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:30 +0000
Subject: [PATCH 58/89] fix: cloning an integer hash no longer crashes

---
 c/src/hash.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index 31540fc..d0ca14a 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -483,16 +483,30 @@ Hash *h_clone(Hash *self, h_clone_ft clone_key, h_clone_ft clone_value)
     int i = self->size;
     Hash *ht_clone;
 
-    ht_clone = h_new(self->hash_i,
-                     self->eq_i,
-                     self->free_key_i,
-                     self->free_value_i);
+    if (self->lookup_i == &h_lookup_ptr) {
+        /* the keys of an integer hash are in the hash values */
+        ht_clone = h_new_int(self->free_value_i);
+    }
+    else {
+        ht_clone = h_new(self->hash_i,
+                         self->eq_i,
+                         self->free_key_i,
+                         self->free_value_i);
+    }
 
     for (he = self->table; i > 0; he++) {
         if (he->key && he->key != dummy_key) {        /* active entry */
-            key = clone_key ? clone_key(he->key) : he->key;
             value = clone_value ? clone_value(he->value) : he->value;
-            h_set(ht_clone, key, value);
+            if (self->lookup_i == &h_lookup_ptr) {
+                HashEntry *he_clone;
+                h_set_ext(ht_clone, (const void *)he->hash, &he_clone);
+                he_clone->key = he->key;
+                he_clone->value = value;
+            }
+            else {
+                key = clone_key ? clone_key(he->key) : he->key;
+                h_set(ht_clone, key, value);
+            }
             i--;
         }
     }
-- 
2.43.0


From 9ac17b72651ebbb0c0c8b987ed5bd174dff7c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:30 +0000
Subject: [PATCH 59/89] fix: taking an element from an empty array leaves it
 empty

---
 c/src/array.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/src/array.c b/c/src/array.c
index 17b30b7..2c63f9d 100644
--- a/c/src/array.c
+++ b/c/src/array.c
@@ -74,7 +74,11 @@ void ary_push_i(void ***ary, void *value)
 
 void *ary_pop_i(void **ary)
 {
-    void *val = ary[--ary_sz(ary)];
+    void *val;
+    if (ary_sz(ary) <= 0) {
+        return NULL;
+    }
+    val = ary[--ary_sz(ary)];
     ary[ary_sz(ary)] = NULL;
     return val;
 }
@@ -90,7 +94,11 @@ void ary_unshift_i(void ***ary, void *value)
 void *ary_shift_i(void **ary)
 {
     void *val = ary[0];
-    int size = --ary_sz(ary);
+    int size;
+    if (ary_sz(ary) <= 0) {
+        return NULL;
+    }
+    size = --ary_sz(ary);
     memmove(ary, ary + 1, size * sizeof(void *));
     ary[size] = NULL;
     return val;
-- 
2.43.0


From 9337c40075c7f07248c71f8dc80fe166d3199c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:30 +0000
Subject: [PATCH 60/89] fix: removing an array element no longer reads past its
 end

---
 c/src/array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/array.c b/c/src/array.c
index 2c63f9d..10bbb9d 100644
--- a/c/src/array.c
+++ b/c/src/array.c
@@ -109,8 +109,9 @@ void *ary_remove_i(void **ary, int index)
     if (index >= 0 && index < ary_sz(ary)) {
         void *val = ary[index];
         memmove(ary + index, ary + index + 1,
-                (ary_sz(ary) - index + 1) * sizeof(void *));
+                (ary_sz(ary) - index - 1) * sizeof(void *));
         ary_sz(ary)--;
+        ary[ary_sz(ary)] = NULL;
         return val;
     }
     else {
-- 
2.43.0


From 82c6a19d0c2ee706d9d985da43502880451e6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 61/89] fix: only a trailing slash is cut from a URL token

The scanner set trunc at every slash a URL could have ended with, so a URL
with a path lost its last character: http://foo.com/bar gave foo.com/ba.
---
 c/src/scanner.c       | 8 ++++++--
 c/src/scanner.rl      | 6 +++++-
 c/src/scanner_mb.c    | 8 ++++++--
 c/src/scanner_mb.rl   | 6 +++++-
 c/src/scanner_utf8.c  | 8 ++++++--
 c/src/scanner_utf8.rl | 6 +++++-
 c/src/url.rl          | 2 +-
 7 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/c/src/scanner.c b/c/src/scanner.c
index 3ba8fae..b65f57c 100644
--- a/c/src/scanner.c
+++ b/c/src/scanner.c
@@ -559,6 +559,7 @@ void frt_std_scan(const char *in,
     char *p = (char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
+    char *slash = 0;
     char strip_char = 0;
 
     *end = 0;
@@ -659,7 +660,7 @@ _eof_trans:
 	break;
 	case 1:
 #line 26 "src/url.rl"
-	{ trunc = 1; }
+	{ slash = p; }
 	break;
 	case 2:
 #line 27 "src/scanner.rl"
@@ -874,7 +875,10 @@ _again:
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        size_t __len;
+        if (slash && slash + 1 == te)
+            trunc = 1;          /* a URL's trailing slash */
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
diff --git a/c/src/scanner.rl b/c/src/scanner.rl
index ca80fff..b82df46 100644
--- a/c/src/scanner.rl
+++ b/c/src/scanner.rl
@@ -44,6 +44,7 @@ void frt_std_scan(const char *in,
     char *p = (char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
+    char *slash = 0;
     char strip_char = 0;
 
     *end = 0;
@@ -59,7 +60,10 @@ void frt_std_scan(const char *in,
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        size_t __len;
+        if (slash && slash + 1 == te)
+            trunc = 1;          /* a URL's trailing slash */
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index f7298eb..d285025 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -6363,6 +6363,7 @@ void frt_std_scan_mb(const char *in_mb,
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
+    unsigned int *slash = 0;
     unsigned int strip_char = 0;
 
     *end_mb = 0;
@@ -6463,7 +6464,7 @@ _eof_trans:
 	break;
 	case 1:
 #line 26 "src/url.rl"
-	{ trunc = 1; }
+	{ slash = p; }
 	break;
 	case 2:
 #line 30 "src/scanner_mb.rl"
@@ -6683,7 +6684,10 @@ _again:
  ret:
     {
         unsigned int out_wc[4096] = {0};
-        size_t __len = te - ts - skip - trunc;
+        size_t __len;
+        if (slash && slash + 1 == te)
+            trunc = 1;          /* a URL's trailing slash */
+        __len = te - ts - skip - trunc;
 
         *start_mb = position_in_mb(in_wc, in_mb, ts);
         *end_mb   = position_in_mb(in_wc, in_mb, te);
diff --git a/c/src/scanner_mb.rl b/c/src/scanner_mb.rl
index bc2fe19..c106e81 100644
--- a/c/src/scanner_mb.rl
+++ b/c/src/scanner_mb.rl
@@ -162,6 +162,7 @@ void frt_std_scan_mb(const char *in_mb,
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
+    unsigned int *slash = 0;
     unsigned int strip_char = 0;
 
     *end_mb = 0;
@@ -178,7 +179,10 @@ void frt_std_scan_mb(const char *in_mb,
  ret:
     {
         unsigned int out_wc[4096] = {0};
-        size_t __len = te - ts - skip - trunc;
+        size_t __len;
+        if (slash && slash + 1 == te)
+            trunc = 1;          /* a URL's trailing slash */
+        __len = te - ts - skip - trunc;
 
         *start_mb = position_in_mb(in_wc, in_mb, ts);
         *end_mb   = position_in_mb(in_wc, in_mb, te);
diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index ad02f83..bc00d41 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -4068,6 +4068,7 @@ void frt_std_scan_utf8(const char *in,
     char *p = (char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
+    char *slash = 0;
     char strip_char = 0;
 
     *end = 0;
@@ -4168,7 +4169,7 @@ _eof_trans:
 	break;
 	case 1:
 #line 26 "src/url.rl"
-	{ trunc = 1; }
+	{ slash = p; }
 	break;
 	case 2:
 #line 28 "src/scanner_utf8.rl"
@@ -4394,7 +4395,10 @@ _again:
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        size_t __len;
+        if (slash && slash + 1 == te)
+            trunc = 1;          /* a URL's trailing slash */
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
diff --git a/c/src/scanner_utf8.rl b/c/src/scanner_utf8.rl
index dcfbd4b..00ca653 100644
--- a/c/src/scanner_utf8.rl
+++ b/c/src/scanner_utf8.rl
@@ -45,6 +45,7 @@ void frt_std_scan_utf8(const char *in,
     char *p = (char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
+    char *slash = 0;
     char strip_char = 0;
 
     *end = 0;
@@ -60,7 +61,10 @@ void frt_std_scan_utf8(const char *in,
 
  ret:
     {
-        size_t __len = te - ts - skip - trunc;
+        size_t __len;
+        if (slash && slash + 1 == te)
+            trunc = 1;          /* a URL's trailing slash */
+        __len = te - ts - skip - trunc;
         if (__len > out_size)
             __len = out_size;
 
diff --git a/c/src/url.rl b/c/src/url.rl
index 36ff3b7..d9b5769 100644
--- a/c/src/url.rl
+++ b/c/src/url.rl
@@ -23,5 +23,5 @@
         #// Port
         ( [:] digit+ )?
 
-        ([/]? @{ trunc = 1; });
+        ([/]? @{ slash = p; });
 }%%
-- 
2.43.0


From f8b0d2904588f14d00cb4b652a9762ed6c6f80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:45 +0000
Subject: [PATCH 62/89] fix: the multi-byte scanner reads and writes within its
 buffers

A text with more than 4096 characters to the end of its next token made it
read past its buffer, a long token was written past the end of the token's
text, and undecodable bytes made the offsets leave the text.
---
 c/src/scanner_mb.c  | 82 ++++++++++++++++++++++++++++-----------------
 c/src/scanner_mb.rl | 82 ++++++++++++++++++++++++++++-----------------
 2 files changed, 102 insertions(+), 62 deletions(-)

diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index d285025..dce8b1c 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -6240,22 +6240,6 @@ static const char *position_in_mb( const unsigned int *orig_wc,
     return mb;
 }
 
-static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
-{
-    int num_bytes;
-    if ((num_bytes = (int)mbrtowc((wchar_t*)wchr, s, MB_CUR_MAX, state)) < 0) {
-        const char *t = s;
-        do {
-            t++;
-            ZEROSET(state, mbstate_t);
-            num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
-        } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
-    }
-    return num_bytes;
-}
-
 static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
 {
     return (int)wcrtomb(s, *wchr, state);
@@ -6283,28 +6267,33 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+/* Converts at most +out_len+ characters and returns where it stopped. A byte
+ * that can't be decoded counts as a space, so that every character is as long
+ * as position_in_mb thinks it is. */
+static const char *mb_to_wc(const char *in,
+                            unsigned int *out, size_t out_len)
 {
     mbstate_t state;
     const char *in_p     = in;
     unsigned int *out_p = out;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    while (*in_p && out_p < (out + out_len))
     {
         /* We can break out early here on, say, a space XXX */
 
-        int n = mb_next_char(out_p, in_p, &state);
+        int n = (int)mbrtowc((wchar_t*)out_p, in_p, MB_CUR_MAX, &state);
         if (n < 0)
         {
-            ++in_p;
-            continue;
+            ZEROSET(&state, mbstate_t);
+            *out_p = ' ';
+            n = 1;
         }
 
         in_p += n;
         ++out_p;
     }
+    return in_p;
 }
 
 static void wc_to_mb(char *out, size_t out_size, int *token_size,
@@ -6321,13 +6310,17 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
         if (!*in_wc_p)
             break;
 
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        char buf[MB_LEN_MAX];
+        int n = wc_next_char(buf, in_wc_p, &state);
         if (n < 0)
         {
             ++in_wc_p;
             continue;
         }
+        if (out_p + n > out + out_size)
+            break;
 
+        memcpy(out_p, buf, n);
         out_p += n;
         ++in_wc_p;
     }
@@ -6335,11 +6328,17 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
     *token_size = out_p - out;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+/*
+ * Scans the next SCAN_LEN characters. If there may be more to the text than
+ * that, +more+ is set to where the scan has to be taken up again.
+ */
+#define SCAN_LEN 4095
+static void std_scan_mb_part(const char *in_mb,
+                             char *out_mb, size_t out_mb_size,
+                             const char **start_mb,
+                             const char **end_mb,
+                             int *token_size,
+                             const char **more)
 {
     int cs, act, top;
     int stack[32];
@@ -6357,8 +6356,10 @@ void frt_std_scan_mb(const char *in_mb,
 
 #line 158 "src/scanner_mb.rl"
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
+    unsigned int in_wc[SCAN_LEN + 1] = {0};
+    *more = mb_to_wc(in_mb, in_wc, SCAN_LEN);
+    if (!**more)
+        *more = 0;
 
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
@@ -6683,7 +6684,7 @@ _again:
 
  ret:
     {
-        unsigned int out_wc[4096] = {0};
+        unsigned int out_wc[SCAN_LEN + 1] = {0};
         size_t __len;
         if (slash && slash + 1 == te)
             trunc = 1;          /* a URL's trailing slash */
@@ -6706,5 +6707,24 @@ _again:
 
         wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
         out_mb[*token_size] = 0;
+
+        if (*more && ts > in_wc && !*te) {
+            /* the token may go on beyond what was scanned */
+            *more = *start_mb;
+            *token_size = 0;
+        }
     }
 }
+
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    const char *more = in_mb;
+    do {
+        std_scan_mb_part(more, out_mb, out_mb_size, start_mb, end_mb,
+                         token_size, &more);
+    } while (*token_size == 0 && more);
+}
diff --git a/c/src/scanner_mb.rl b/c/src/scanner_mb.rl
index c106e81..303aef7 100644
--- a/c/src/scanner_mb.rl
+++ b/c/src/scanner_mb.rl
@@ -49,22 +49,6 @@ static const char *position_in_mb( const unsigned int *orig_wc,
     return mb;
 }
 
-static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
-{
-    int num_bytes;
-    if ((num_bytes = (int)mbrtowc((wchar_t*)wchr, s, MB_CUR_MAX, state)) < 0) {
-        const char *t = s;
-        do {
-            t++;
-            ZEROSET(state, mbstate_t);
-            num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
-        } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
-        if (*t == 0) *wchr = 0;
-    }
-    return num_bytes;
-}
-
 static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
 {
     return (int)wcrtomb(s, *wchr, state);
@@ -92,28 +76,33 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+/* Converts at most +out_len+ characters and returns where it stopped. A byte
+ * that can't be decoded counts as a space, so that every character is as long
+ * as position_in_mb thinks it is. */
+static const char *mb_to_wc(const char *in,
+                            unsigned int *out, size_t out_len)
 {
     mbstate_t state;
     const char *in_p     = in;
     unsigned int *out_p = out;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    while (*in_p && out_p < (out + out_len))
     {
         /* We can break out early here on, say, a space XXX */
 
-        int n = mb_next_char(out_p, in_p, &state);
+        int n = (int)mbrtowc((wchar_t*)out_p, in_p, MB_CUR_MAX, &state);
         if (n < 0)
         {
-            ++in_p;
-            continue;
+            ZEROSET(&state, mbstate_t);
+            *out_p = ' ';
+            n = 1;
         }
 
         in_p += n;
         ++out_p;
     }
+    return in_p;
 }
 
 static void wc_to_mb(char *out, size_t out_size, int *token_size,
@@ -130,13 +119,17 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
         if (!*in_wc_p)
             break;
 
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        char buf[MB_LEN_MAX];
+        int n = wc_next_char(buf, in_wc_p, &state);
         if (n < 0)
         {
             ++in_wc_p;
             continue;
         }
+        if (out_p + n > out + out_size)
+            break;
 
+        memcpy(out_p, buf, n);
         out_p += n;
         ++in_wc_p;
     }
@@ -144,11 +137,17 @@ static void wc_to_mb(char *out, size_t out_size, int *token_size,
     *token_size = out_p - out;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+/*
+ * Scans the next SCAN_LEN characters. If there may be more to the text than
+ * that, +more+ is set to where the scan has to be taken up again.
+ */
+#define SCAN_LEN 4095
+static void std_scan_mb_part(const char *in_mb,
+                             char *out_mb, size_t out_mb_size,
+                             const char **start_mb,
+                             const char **end_mb,
+                             int *token_size,
+                             const char **more)
 {
     int cs, act, top;
     int stack[32];
@@ -156,8 +155,10 @@ void frt_std_scan_mb(const char *in_mb,
 
     %% write init;
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
+    unsigned int in_wc[SCAN_LEN + 1] = {0};
+    *more = mb_to_wc(in_mb, in_wc, SCAN_LEN);
+    if (!**more)
+        *more = 0;
 
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
@@ -178,7 +179,7 @@ void frt_std_scan_mb(const char *in_mb,
 
  ret:
     {
-        unsigned int out_wc[4096] = {0};
+        unsigned int out_wc[SCAN_LEN + 1] = {0};
         size_t __len;
         if (slash && slash + 1 == te)
             trunc = 1;          /* a URL's trailing slash */
@@ -201,5 +202,24 @@ void frt_std_scan_mb(const char *in_mb,
 
         wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
         out_mb[*token_size] = 0;
+
+        if (*more && ts > in_wc && !*te) {
+            /* the token may go on beyond what was scanned */
+            *more = *start_mb;
+            *token_size = 0;
+        }
     }
 }
+
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    const char *more = in_mb;
+    do {
+        std_scan_mb_part(more, out_mb, out_mb_size, start_mb, end_mb,
+                         token_size, &more);
+    } while (*token_size == 0 && more);
+}
-- 
2.43.0


From a8a6e5c54d5322ec182a30a4c398647b2d412fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:45 +0000
Subject: [PATCH 63/89] fix: a word that gets longer in lower case stays within
 its token

---
 c/src/analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index ce8ec20..4166bb8 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1357,7 +1357,7 @@ static Token *mb_lcf_next(TokenStream *ts)
         *wchr = towlower(*wchr);
         wchr++;
     }
-    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE);
+    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE - 1);
     if (tk->len <= 0) {
         strcpy(tk->text, "BAD_DATA");
         tk->len = 8;
-- 
2.43.0


From 194bb9204dbb8b5ca4cacbeb3aca9fc12f139e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:46 +0000
Subject: [PATCH 64/89] fix: a hyphen filter given a new text drops the rest of
 the last word

---
 c/src/analysis.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 4166bb8..47f9d36 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1268,6 +1268,12 @@ static TokenStream *hf_clone_i(TokenStream *orig_ts)
     return new_ts;
 }
 
+static TokenStream *hf_reset(TokenStream *ts, char *text)
+{
+    HyphenFilt(ts)->pos = HyphenFilt(ts)->len = 0;
+    return filter_reset(ts, text);
+}
+
 static Token *hf_next(TokenStream *ts)
 {
     HyphenFilter *hf = HyphenFilt(ts);
@@ -1332,6 +1338,7 @@ TokenStream *hyphen_filter_new(TokenStream *sub_ts)
     TokenStream *ts = tf_new(HyphenFilter, sub_ts);
     ts->next        = &hf_next;
     ts->clone_i     = &hf_clone_i;
+    ts->reset       = &hf_reset;
     return ts;
 }
 
-- 
2.43.0


From 246141d26593a0e18153d81a983711a41fe0f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:46 +0000
Subject: [PATCH 65/89] fix: the parts of a hyphenated URL have its offsets

A URL's protocol is not in the token, so counting from the start of the
token gave offsets in the protocol.
---
 c/include/analysis.h | 1 +
 c/src/analysis.c     | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/include/analysis.h b/c/include/analysis.h
index 7766e69..aeb91cb 100644
--- a/c/include/analysis.h
+++ b/c/include/analysis.h
@@ -121,6 +121,7 @@ typedef struct FrtHyphenFilter
     int start;
     int pos;
     int len;
+    bool exact;     /* the token's text is what stands in the original text */
     FrtToken *tk;
 } FrtHyphenFilter;
 
diff --git a/c/src/analysis.c b/c/src/analysis.c
index 47f9d36..bb053c2 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1285,8 +1285,10 @@ static Token *hf_next(TokenStream *ts)
         const int text_len = strlen(hf->text + pos);
         strcpy(tk->text, hf->text + pos);
         tk->pos_inc = ((pos != 0) ? 1 : 0);
-        tk->start = hf->start + pos;
-        tk->end = tk->start + text_len;
+        if (hf->exact) {
+            tk->start = hf->start + pos;
+            tk->end = tk->start + text_len;
+        }
         hf->pos += text_len + 1;
         tk->len = text_len;
         return tk;
@@ -1327,6 +1329,7 @@ static Token *hf_next(TokenStream *ts)
             hf->start = tk->start;
             hf->pos = 0;
             hf->len = q - hf->text;
+            hf->exact = (tk->end - tk->start == hf->len);
             tk->len = r - tk->text;
         }
     }
-- 
2.43.0


From e34f766163d9fc6f739409ca9a25769462553977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:46 +0000
Subject: [PATCH 66/89] fix: the legacy tokenizers don't write past their token
 buffer

---
 c/src/analysis.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index bb053c2..22d00f8 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -947,7 +947,7 @@ static Token *legacy_std_next(TokenStream *ts)
 
     if (t[0] == ':' && t[1] == '/' && t[2] == '/') {
         /* check for a known url start */
-        token[token_i] = '\0';
+        token[min2(token_i, MAX_WORD_SIZE)] = '\0';
         t += 3;
         token_i += 3;
         while (*t == '/') {
@@ -962,7 +962,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         else {              /* still treat as url but keep the first part */
             token_i = (int)(t - start);
-            memcpy(token, start, token_i * sizeof(char));
+            memcpy(token, start, min2(token_i, MAX_WORD_SIZE) * sizeof(char));
             ts->t = std_get_url(start, token, token_i, &len); /* keep start */
         }
         return tk_set(&(CTS(ts)->token), token, len,
@@ -1008,7 +1008,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         if (is_acronym) {   /* strip '.'s */
             for (s = start + token_i; s < t; s++) {
-                if (*s != '.') {
+                if (*s != '.' && token_i < MAX_WORD_SIZE) {
                     token[token_i] = *s;
                     token_i++;
                 }
-- 
2.43.0


From 20b7609cdea2c9c940a2ced3fa4e5bdcd80d38da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:46 +0000
Subject: [PATCH 67/89] fix: a multi-mapper maps with its current mappings, to
 any length

The start state was read before the mappings were compiled, so the first
mapping, or one after a mapping was added, used memory that was freed or never
set. The dynamic map also cut replacements at the length of the original and
lost its buffer when that grew.
---
 c/src/multimapper.c | 55 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index b90e0d0..d0b597b 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -261,12 +261,13 @@ void mulmap_compile(MultiMapper *self)
 
 int mulmap_map_len(MultiMapper *self, char *to, char *from, int capa)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start;
+    DeterministicState *state;
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    state = start = self->dstates[0];
     while (*s && d < end) {
         state = state->next[UCtoI(*s)];
         if (state->mapping) {
@@ -297,38 +298,36 @@ char *mulmap_map(MultiMapper *self, char *to, char *from, int capa)
 /* Maps a string to a dynamically allocated string */
 char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
-    int capa = strlen(from);
+    DeterministicState *start;
+    DeterministicState *state;
+    int capa = strlen(from) + 1;
     char *to = (char *)ecalloc(capa);
-    char *s = from, *d = to, *end = to + capa - 1;
+    char *s = from, *d = to;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
-    do {
-        while (*s && d < end) {
-            state = state->next[UCtoI(*s)];
-            if (state->mapping) {
-                int len = state->mapping_len;
-                d -= (state->longest_match - 1);
-                if ((d + len) > end) {
-                    len = end - d;
-                }
-                memcpy(d, state->mapping, len);
-                d += len;
-                state = start;
-            }
-            else {
-                *(d++) = *s;
-            }
-            s++;
+    state = start = self->dstates[0];
+    while (*s) {
+        int len;
+        state = state->next[UCtoI(*s)];
+        len = state->mapping ? state->mapping_len : 1;
+        if (d - to + len >= capa) {
+            int size = d - to;
+            capa += len + 1024;
+            REALLOC_N(to, char, capa);
+            d = to + size;
+        }
+        if (state->mapping) {
+            d -= (state->longest_match - 1);
+            memcpy(d, state->mapping, len);
+            d += len;
+            state = start;
         }
-        if (*s) {
-            capa += 1024;
-            erealloc(to, capa);
-            end = to + capa - 1;
+        else {
+            *(d++) = *s;
         }
-    } while(*s);
+        s++;
+    }
     *d = '\0';
     return to;
 }
-- 
2.43.0


From 3c2725ee8f8a3b073f8ad28c15dc940b996efd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:48 +0000
Subject: [PATCH 68/89] fix: the legacy tokenizers don't look before the start
 of the text

---
 c/src/analysis.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 22d00f8..5fe41a8 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -977,7 +977,7 @@ static Token *legacy_std_next(TokenStream *ts)
         if (is_acronym && !isalpha(*t) && (*t != '.')) {
             is_acronym = false;
         }
-        if (isurlxatpunc(*t) && isurlxatpunc(t[-1])) {
+        if (isurlxatpunc(*t) && t > ts->text && isurlxatpunc(t[-1])) {
             break; /* can't have two punctuation characters in a row */
         }
         if (*t == '@') {
@@ -990,7 +990,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         t++;
     }
-    while (isurlxatpunc(t[-1]) && t > ts->t) {
+    while (t > ts->t && isurlxatpunc(t[-1])) {
         t--;                /* strip trailing punctuation */
     }
 
-- 
2.43.0


From f67982829e1e4226870eb5a91480e2b39486611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 69/89] fix: a query that cannot be built leaves the parser as
 it was

---
 c/src/q_parser.c | 15 ++++++++-------
 c/src/q_parser.y | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 3178852..179e7d3 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -215,6 +215,7 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    q = NULL;\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
@@ -2190,17 +2191,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -3083,11 +3077,18 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 5e9a9c7..5d58b30 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -163,6 +163,7 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    q = NULL;\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
@@ -453,17 +454,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -1346,11 +1340,18 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
-- 
2.43.0


From db29e14c9b3ec7ac7535340729ec4dbce997cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 70/89] fix: long query words keep their own buffers

---
 c/include/search.h |  2 +-
 c/src/q_parser.c   | 30 ++++++++++++++++++------------
 c/src/q_parser.y   | 30 ++++++++++++++++++------------
 3 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/c/include/search.h b/c/include/search.h
index 3b7b538..55d0bee 100644
--- a/c/include/search.h
+++ b/c/include/search.h
@@ -912,7 +912,7 @@ typedef struct FrtQueryParser
     char *qstr;
     char *qstrp;
     char buf[FRT_QP_CONC_WORDS][FRT_MAX_WORD_SIZE];
-    char *dynbuf;
+    char *dynbuf[FRT_QP_CONC_WORDS];
     int  buf_index;
     FrtHash *field_cache;
     FrtHashSet *def_fields;
diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 179e7d3..7221967 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2042,13 +2042,14 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     bool is_wild = false;
     int len;
     char c;
-    char *buf = qp->buf[qp->buf_index];
+    const int slot = qp->buf_index;
+    char *buf = qp->buf[slot];
     char *bufp = buf;
-    qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
+    qp->buf_index = (slot + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (qp->dynbuf[slot]) {
+        free(qp->dynbuf[slot]);
+        qp->dynbuf[slot] = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -2080,15 +2081,16 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
             default:
                 *bufp++ = c;
         }
-        /* we've exceeded the static buffer. switch to the dynamic one. The
+        /* we've filled the static buffer. switch to the dynamic one. The
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+        if (!qp->dynbuf[slot] && ((bufp - buf) > MAX_WORD_SIZE - 3)) {
+            len = (int)(bufp - buf);
+            qp->dynbuf[slot] = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(qp->dynbuf[slot], buf, len);
+            buf = qp->dynbuf[slot];
+            bufp = buf + len;
         }
     }
 get_word_done:
@@ -2855,6 +2857,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -2869,6 +2872,9 @@ void qp_destroy(QParser *self)
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     free(self);
 }
 
@@ -2902,7 +2908,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 5d58b30..a52d928 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -305,13 +305,14 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     bool is_wild = false;
     int len;
     char c;
-    char *buf = qp->buf[qp->buf_index];
+    const int slot = qp->buf_index;
+    char *buf = qp->buf[slot];
     char *bufp = buf;
-    qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
+    qp->buf_index = (slot + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (qp->dynbuf[slot]) {
+        free(qp->dynbuf[slot]);
+        qp->dynbuf[slot] = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -343,15 +344,16 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
             default:
                 *bufp++ = c;
         }
-        /* we've exceeded the static buffer. switch to the dynamic one. The
+        /* we've filled the static buffer. switch to the dynamic one. The
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+        if (!qp->dynbuf[slot] && ((bufp - buf) > MAX_WORD_SIZE - 3)) {
+            len = (int)(bufp - buf);
+            qp->dynbuf[slot] = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(qp->dynbuf[slot], buf, len);
+            buf = qp->dynbuf[slot];
+            bufp = buf + len;
         }
     }
 get_word_done:
@@ -1118,6 +1120,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -1132,6 +1135,9 @@ void qp_destroy(QParser *self)
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     free(self);
 }
 
@@ -1165,7 +1171,7 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    memset(self->dynbuf, 0, sizeof(self->dynbuf));
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
-- 
2.43.0


From 76ba2312858b052f1df778822328fa26d05197c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 71/89] fix: patterns and ranges are put in lower case for
 tokenized fields only

---
 c/src/q_parser.c | 73 ++++++++++++++++++++++++++++--------------------
 c/src/q_parser.y | 73 ++++++++++++++++++++++++++++--------------------
 2 files changed, 86 insertions(+), 60 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 7221967..da0a669 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2443,32 +2443,50 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 }
 
 /**
- * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * Return a downcased copy of a string taking locale into account. Works for
+ * multibyte character sets.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
     int cnt;
+    char *res;
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
-    if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
+    if ((cnt = (int)mbstowcs(wstr, str, max_len)) > 0) {
+        const size_t res_len = cnt * MB_CUR_MAX + 1;
         wchar_t *w = wstr;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        res = ALLOC_AND_ZERO_N(char, res_len);
+        wcstombs(res, wstr, res_len - 1);
     }
     else {
-        char *s = str;
+        char *s = res = estrdup(str);
         while (*s) {
             *s = tolower(*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len] = '\0';
-    return str;
+    return res;
+}
+
+/**
+ * Return a copy of a word to be used in a pattern or a range, downcased if
+ * the field in question is a tokenized field.
+ */
+static char *get_untokenized_word(QParser *qp, Symbol field, const char *word)
+{
+    if (!word) {
+        return NULL;
+    }
+    if (qp->wild_lower
+        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
+        return lower_str(word);
+    }
+    return estrdup(word);
 }
 
 /**
@@ -2480,23 +2498,20 @@ static char *lower_str(char *str)
  * optimized to a MatchAllQuery if the pattern is '*' or a PrefixQuery if the
  * only wild char (*, ?) in the pattern is a '*' at the end of the pattern.
  */
-static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
+static Query *get_wild_q(QParser *qp, Symbol field, char *word)
 {
     Query *q;
     bool is_prefix = false;
     char *p;
+    char *pattern = get_untokenized_word(qp, field, word);
     int len = (int)strlen(pattern);
 
-    if (qp->wild_lower
-        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
-    }
-    
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(pattern);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -2509,15 +2524,15 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
         }
     }
     if (is_prefix) {
-        /* chop off the '*' temporarily to create the query */
+        /* chop off the '*' to create the query */
         pattern[len - 1] = 0;
         q = prefixq_new(field, pattern);
-        pattern[len - 1] = '*';
     }
     else {
         q = wcq_new(field, pattern);
     }
     MTQMaxTerms(q) = qp->max_clauses;
+    free(pattern);
     return q;
 }
 
@@ -2778,19 +2793,12 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
  * Just like with WildCardQuery, RangeQuery needs to downcase its terms if the
  * tokenizer also downcased its terms.
  */
-static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
+static Query *get_r_q(QParser *qp, Symbol field, char *lower, char *upper,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
-    if (qp->wild_lower
-        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        if (from) {
-            lower_str(from);
-        }
-        if (to) {
-            lower_str(to);
-        }
-    }
+    Query *volatile rq = NULL;
+    char *const from = get_untokenized_word(qp, field, lower);
+    char *const to = get_untokenized_word(qp, field, upper);
 /*
  * terms don't get tokenized as it doesn't really make sense to do so for
  * range queries.
@@ -2807,9 +2815,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(from);
+        free(to);
+    XENDTRY
     return rq;
 }
 
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index a52d928..2cca49a 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -706,32 +706,50 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 }
 
 /**
- * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * Return a downcased copy of a string taking locale into account. Works for
+ * multibyte character sets.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
     int cnt;
+    char *res;
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
-    if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
+    if ((cnt = (int)mbstowcs(wstr, str, max_len)) > 0) {
+        const size_t res_len = cnt * MB_CUR_MAX + 1;
         wchar_t *w = wstr;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        res = ALLOC_AND_ZERO_N(char, res_len);
+        wcstombs(res, wstr, res_len - 1);
     }
     else {
-        char *s = str;
+        char *s = res = estrdup(str);
         while (*s) {
             *s = tolower(*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len] = '\0';
-    return str;
+    return res;
+}
+
+/**
+ * Return a copy of a word to be used in a pattern or a range, downcased if
+ * the field in question is a tokenized field.
+ */
+static char *get_untokenized_word(QParser *qp, Symbol field, const char *word)
+{
+    if (!word) {
+        return NULL;
+    }
+    if (qp->wild_lower
+        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
+        return lower_str(word);
+    }
+    return estrdup(word);
 }
 
 /**
@@ -743,23 +761,20 @@ static char *lower_str(char *str)
  * optimized to a MatchAllQuery if the pattern is '*' or a PrefixQuery if the
  * only wild char (*, ?) in the pattern is a '*' at the end of the pattern.
  */
-static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
+static Query *get_wild_q(QParser *qp, Symbol field, char *word)
 {
     Query *q;
     bool is_prefix = false;
     char *p;
+    char *pattern = get_untokenized_word(qp, field, word);
     int len = (int)strlen(pattern);
 
-    if (qp->wild_lower
-        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
-    }
-    
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(pattern);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -772,15 +787,15 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
         }
     }
     if (is_prefix) {
-        /* chop off the '*' temporarily to create the query */
+        /* chop off the '*' to create the query */
         pattern[len - 1] = 0;
         q = prefixq_new(field, pattern);
-        pattern[len - 1] = '*';
     }
     else {
         q = wcq_new(field, pattern);
     }
     MTQMaxTerms(q) = qp->max_clauses;
+    free(pattern);
     return q;
 }
 
@@ -1041,19 +1056,12 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
  * Just like with WildCardQuery, RangeQuery needs to downcase its terms if the
  * tokenizer also downcased its terms.
  */
-static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
+static Query *get_r_q(QParser *qp, Symbol field, char *lower, char *upper,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
-    if (qp->wild_lower
-        && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        if (from) {
-            lower_str(from);
-        }
-        if (to) {
-            lower_str(to);
-        }
-    }
+    Query *volatile rq = NULL;
+    char *const from = get_untokenized_word(qp, field, lower);
+    char *const to = get_untokenized_word(qp, field, upper);
 /*
  * terms don't get tokenized as it doesn't really make sense to do so for
  * range queries.
@@ -1070,9 +1078,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(from);
+        free(to);
+    XENDTRY
     return rq;
 }
 
-- 
2.43.0


From f2478a3cac5a0845ad99a3191729840670262a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 72/89] fix: alternative words are analyzed for each field on
 its own

---
 c/src/q_parser.c | 23 +++++++++--------------
 c/src/q_parser.y | 23 +++++++++--------------
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index da0a669..92e869d 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2683,18 +2683,12 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
             int i;
             int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            char **terms = ALLOC_N(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
                 if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                    terms[term_cnt++] = estrdup(token->text);
                 }
             }
 
@@ -2703,18 +2697,19 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
                     q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
-                        /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
-                        }
+                    for (i = 0; i < term_cnt; i++) {
+                        multi_tq_add_term(q, terms[i]);
                     }
                     break;
             }
+            for (i = 0; i < term_cnt; i++) {
+                free(terms[i]);
+            }
+            free(terms);
         }
     }
     else if (pos_cnt > 1) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 2cca49a..8d9265f 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -946,18 +946,12 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
             int i;
             int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            char **terms = ALLOC_N(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
                 if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                    terms[term_cnt++] = estrdup(token->text);
                 }
             }
 
@@ -966,18 +960,19 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
                     q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
-                        /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
-                        }
+                    for (i = 0; i < term_cnt; i++) {
+                        multi_tq_add_term(q, terms[i]);
                     }
                     break;
             }
+            for (i = 0; i < term_cnt; i++) {
+                free(terms[i]);
+            }
+            free(terms);
         }
     }
     else if (pos_cnt > 1) {
-- 
2.43.0


From a6a27deeb603758c6fedb9a2a5303bcd6fb1b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 73/89] fix: a phrase may start with a placeholder and an
 alternative

---
 c/src/q_parser.c | 3 +++
 c/src/q_parser.y | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 92e869d..6464ea1 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2633,6 +2633,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) {
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 8d9265f..dc2bc46 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -896,6 +896,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) {
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
-- 
2.43.0


From 64d931a7d4124f9c95e109b3c19cdaed2b289e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 74/89] fix: phrases without a slop of their own have the
 default slop

---
 c/src/q_parser.c | 3 ++-
 c/src/q_parser.y | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 6464ea1..87ead5f 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2721,8 +2721,9 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         int i, j;
         int pos_inc = 0;
         q = phq_new(field);
+        ((PhraseQuery *)q)->slop = qp->def_slop;
         if (slop_str) {
-            int slop;
+            int slop = 0;
             sscanf(slop_str,"%d",&slop);
             ((PhraseQuery *)q)->slop = slop;
         }
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index dc2bc46..b0ee496 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -984,8 +984,9 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         int i, j;
         int pos_inc = 0;
         q = phq_new(field);
+        ((PhraseQuery *)q)->slop = qp->def_slop;
         if (slop_str) {
-            int slop;
+            int slop = 0;
             sscanf(slop_str,"%d",&slop);
             ((PhraseQuery *)q)->slop = slop;
         }
-- 
2.43.0


From e337b4d4e70dcc5b0d2b05a0436c4a908fbdbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 75/89] fix: a parser without tokenized fields tokenizes all of
 them

---
 c/src/q_parser.c | 4 ++--
 c/src/q_parser.y | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 87ead5f..ad319f4 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2213,7 +2213,7 @@ static int yyerror(QParser *qp, char const *msg)
 static TokenStream *get_cached_ts(QParser *qp, Symbol field, char *text)
 {
     TokenStream *ts;
-    if (hs_exists(qp->tokenized_fields, field)) {
+    if (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field)) {
         ts = (TokenStream *)h_get(qp->ts_cache, field);
         if (!ts) {
             ts = a_get_ts(qp->analyzer, field, text);
@@ -2870,7 +2870,7 @@ static void qp_pop_fields(QParser *self)
 void qp_destroy(QParser *self)
 {
     int i;
-    if (self->tokenized_fields != self->all_fields) {
+    if (self->tokenized_fields && self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
     if (self->def_fields != self->all_fields) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index b0ee496..814af5d 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -476,7 +476,7 @@ static int yyerror(QParser *qp, char const *msg)
 static TokenStream *get_cached_ts(QParser *qp, Symbol field, char *text)
 {
     TokenStream *ts;
-    if (hs_exists(qp->tokenized_fields, field)) {
+    if (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field)) {
         ts = (TokenStream *)h_get(qp->ts_cache, field);
         if (!ts) {
             ts = a_get_ts(qp->analyzer, field, text);
@@ -1133,7 +1133,7 @@ static void qp_pop_fields(QParser *self)
 void qp_destroy(QParser *self)
 {
     int i;
-    if (self->tokenized_fields != self->all_fields) {
+    if (self->tokenized_fields && self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
     if (self->def_fields != self->all_fields) {
-- 
2.43.0


From 5ddecb3dd7c03d871a3018a669890a7f60255cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:48 +0000
Subject: [PATCH 76/89] fix: cleaning a query keeps the escapes within its
 phrases

---
 c/src/q_parser.c | 5 +----
 c/src/q_parser.y | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index ad319f4..4510786 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2940,9 +2940,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -2980,7 +2977,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 814af5d..7851670 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -1203,9 +1203,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -1243,7 +1240,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
-- 
2.43.0


From 76c345e5fb4138ffe384b242d5598ecf5717cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:58 +0000
Subject: [PATCH 77/89] fix: the boost of a group keeps the boosts within it

---
 c/src/q_parser.c | 14 +++++++++++++-
 c/src/q_parser.y | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 4510786..cff4e56 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -185,6 +185,7 @@ static BCArray *add_default_cls(QParser *qp, BCArray *bca,
 static void bca_destroy(BCArray *bca);
 
 static BooleanClause *get_bool_cls(Query *q, BCType occur);
+static float get_boost(const char *boost_str);
 
 static Query *get_term_q(QParser *qp, Symbol field, char *word);
 static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
@@ -1632,7 +1633,7 @@ yyreduce:
 
   case 12:
 #line 239 "src/q_parser.y"
-    { T if ((yyvsp[(1) - (3)].query)) sscanf((yyvsp[(3) - (3)].str),"%f",&((yyvsp[(1) - (3)].query)->boost));  (yyval.query)=(yyvsp[(1) - (3)].query); E }
+    { T if ((yyvsp[(1) - (3)].query)) (yyvsp[(1) - (3)].query)->boost *= get_boost((yyvsp[(3) - (3)].str));  (yyval.query)=(yyvsp[(1) - (3)].query); E }
     break;
 
   case 14:
@@ -2374,6 +2375,17 @@ static BooleanClause *get_bool_cls(Query *q, BCType occur)
     }
 }
 
+/**
+ * The boost in +boost_str+ or 1.0 if it isn't a number. Boosts of nested
+ * queries are multiplied, as a group of one query is that query.
+ */
+static float get_boost(const char *boost_str)
+{
+    float boost = 1.0f;
+    sscanf(boost_str, "%f", &boost);
+    return boost;
+}
+
 /**
  * Create a TermQuery. The word will be tokenized and if the tokenization
  * produces more than one token, a PhraseQuery will be returned. For example,
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 7851670..f65d470 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -133,6 +133,7 @@ static BCArray *add_default_cls(QParser *qp, BCArray *bca,
 static void bca_destroy(BCArray *bca);
 
 static BooleanClause *get_bool_cls(Query *q, BCType occur);
+static float get_boost(const char *boost_str);
 
 static Query *get_term_q(QParser *qp, Symbol field, char *word);
 static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
@@ -237,7 +238,7 @@ bool_cls  : REQ boosted_q             { T $$ = get_bool_cls($2, BC_MUST); E }
           | boosted_q                 { T $$ = get_bool_cls($1, BC_SHOULD); E }
           ;
 boosted_q : q
-          | q '^' QWRD                { T if ($1) sscanf($3,"%f",&($1->boost));  $$=$1; E }
+          | q '^' QWRD                { T if ($1) $1->boost *= get_boost($3);  $$=$1; E }
           ;
 q         : term_q
           | '(' ')'                   { T $$ = bq_new_max(true, qp->max_clauses); E }
@@ -637,6 +638,17 @@ static BooleanClause *get_bool_cls(Query *q, BCType occur)
     }
 }
 
+/**
+ * The boost in +boost_str+ or 1.0 if it isn't a number. Boosts of nested
+ * queries are multiplied, as a group of one query is that query.
+ */
+static float get_boost(const char *boost_str)
+{
+    float boost = 1.0f;
+    sscanf(boost_str, "%f", &boost);
+    return boost;
+}
+
 /**
  * Create a TermQuery. The word will be tokenized and if the tokenization
  * produces more than one token, a PhraseQuery will be returned. For example,
-- 
2.43.0


From 07f969675c96ebb8f117b8ff2449305cae0b5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:06 +0000
Subject: [PATCH 78/89] fix: wildcard queries with a long prefix match nothing

---
 c/src/q_wildcard.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index d46ce02..92d11f5 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -91,17 +91,17 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
     }
     else {
         const int field_num = fis_get_field_num(ir->fis, WCQ(self)->field);
+        int prefix_len;
         q = multi_tq_new_conf(WCQ(self)->field, MTQMaxTerms(self), 0.0);
 
-        if (field_num >= 0) {
+        pattern = (first_ques && (!first_star || first_star > first_ques))
+            ? first_ques : first_star;
+        prefix_len = (int)(pattern - WCQ(self)->pattern);
+
+        /* no term is as long as MAX_WORD_SIZE */
+        if (field_num >= 0 && prefix_len < MAX_WORD_SIZE) {
             TermEnum *te;
             char prefix[MAX_WORD_SIZE] = "";
-            int prefix_len;
-
-            pattern = (first_ques && (!first_star || first_star > first_ques))
-                ? first_ques : first_star;
-
-            prefix_len = (int)(pattern - WCQ(self)->pattern);
 
             if (prefix_len > 0) {
                 memcpy(prefix, WCQ(self)->pattern, prefix_len);
-- 
2.43.0


From c770948fa1357b2ec8d45d61f2f902f6ec42837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:16 +0000
Subject: [PATCH 79/89] fix: a multi-searcher keeps queries that are the same
 in all indexes as they are

---
 c/src/search.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c/src/search.c b/c/src/search.c
index 48e0d0b..cdd185e 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -372,6 +372,17 @@ Query *q_combine(Query **queries, int q_cnt)
     Query *q, *ret_q;
     HashSet *uniques = hs_new((hash_ft)&q_hash, (eq_ft)&q_eq, NULL);
 
+    for (i = 0; i < q_cnt; i++) {
+        hs_add(uniques, queries[i]);
+    }
+    if (uniques->size == 1) {
+        /* they are all the same so there is nothing to combine */
+        q_cnt = 0;
+    }
+    else {
+        hs_clear(uniques);
+    }
+
     for (i = 0; i < q_cnt; i++) {
         q = queries[i];
         if (q->type == BOOLEAN_QUERY) {
-- 
2.43.0


From 0293b14eb27cc9ce11d330f78d74618e53ffee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 80/89] fix: highlighting a phrase without positions marks
 nothing

---
 c/src/q_phrase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index f2c5a05..1fe1fc0 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -849,7 +849,7 @@ static TVPosEnum *get_tvpe(TermVector *tv, char **terms, int t_cnt, int offset)
 static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
                                      TermVector *tv)
 {
-    if (tv->field == PhQ(self)->field) {
+    if (tv->field == PhQ(self)->field && PhQ(self)->pos_cnt > 0) {
         const int pos_cnt = PhQ(self)->pos_cnt;
         int i;
         int slop = PhQ(self)->slop;
-- 
2.43.0


From a6d71054d10cccba2819f9fbb2b39cf8d6371b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 81/89] fix: matches longer than an excerpt get an excerpt of
 their own

---
 c/src/search.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index cdd185e..5de4f09 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -896,8 +896,11 @@ char **searcher_highlight(Searcher *self,
                     running_score += matches[e_end].score;
                     e_end++;
                 }
+                /* a match that is longer than an excerpt gets one of its own */
                 pq_push(excerpt_pq,
-                        excerpt_new(e_start, e_end - 1, running_score));
+                        excerpt_new(e_start,
+                                    e_end > e_start ? e_end - 1 : e_start,
+                                    running_score));
                 /* - 0.1 so that earlier matches take priority */
                 running_score -= matches[e_start].score;
             }
-- 
2.43.0


From fdde6b392c5973a1bac313835b1e4c3c1b909de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 82/89] fix: compacting no matches leaves none

---
 c/src/search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/search.c b/c/src/search.c
index 5de4f09..6cb3228 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -565,6 +565,7 @@ MatchVector *matchv_sort(MatchVector *self)
 MatchVector *matchv_compact(MatchVector *self)
 {
     int left, right;
+    if (self->size == 0) return self;
     matchv_sort(self);
     for (right = left = 0; right < self->size; right++) {
         /* Note the end + 1. This compacts a range 3:5 and 6:8 inleft 3:8 */
-- 
2.43.0


From f2bd82ba1645cbe80b702be709180e6b96e1ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:09 +0000
Subject: [PATCH 83/89] fix: excerpts don't overlap

---
 c/src/search.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 6cb3228..b99dd2b 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -707,7 +707,10 @@ static Excerpt *excerpt_recalc_score(Excerpt *e, MatchVector *mv)
 }
 
 /* expand an excerpt to it's largest possible size */
-static Excerpt *excerpt_expand(Excerpt *e, const int len, TermVector *tv)
+/* expands the excerpt to up to +len+ bytes within the positions +min_pos+ to
+ * +max_pos+ which the excerpts next to it leave */
+static Excerpt *excerpt_expand(Excerpt *e, const int len, TermVector *tv,
+                               const int min_pos, const int max_pos)
 {
     Offset *offsets = tv->offsets;
     int offset_cnt = tv->offset_cnt;
@@ -725,13 +728,13 @@ static Excerpt *excerpt_expand(Excerpt *e, const int len, TermVector *tv)
     
     while (did_expansion) {
         did_expansion = false;
-        if (e->start_pos > 0
+        if (e->start_pos > min_pos
             && (e->end_offset - offsets[e->start_pos - 1].start) < len) {
             e->start_pos--;
             e->start_offset = offsets[e->start_pos].start;
             did_expansion = true;
         }
-        if (e->end_pos < (offset_cnt - 1)
+        if (e->end_pos < max_pos && e->end_pos < (offset_cnt - 1)
             && (offsets[e->end_pos + 1].end - e->start_offset) < len) {
             e->end_pos++;
             e->end_offset = offsets[e->end_pos].end;
@@ -745,7 +748,8 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
                              LazyDocField *lazy_df,
                              const char *pre_tag, 
                              const char *post_tag,
-                             const char *ellipsis)
+                             const char *ellipsis,
+                             const bool is_last)
 {
     int i, len;
     int last_offset = e->start_offset;
@@ -780,7 +784,7 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
         e_ptr += post_tag_len;
         last_offset = mr->end_offset;
     }
-    if ((lazy_df->len - e->end_offset) <= ellipsis_len) {
+    if (is_last && (lazy_df->len - e->end_offset) <= ellipsis_len) {
         /* no point using ellipsis if it takes up more space */
         e->end_offset = lazy_df->len;
     }
@@ -876,6 +880,7 @@ char **searcher_highlight(Searcher *self,
         else if (mv->size > 0) {
             Excerpt **excerpts = ALLOC_AND_ZERO_N(Excerpt *, num_excerpts);
             int e_start, e_end, i, j;
+            int min_pos = 0, max_pos;
             MatchRange *matches = mv->matches;
             double running_score = 0.0;
             Offset *offsets = tv->offsets;
@@ -959,10 +964,14 @@ char **searcher_highlight(Searcher *self,
                         merged = j - i + 1;
                     }
                 }
-                excerpt_expand(ei, merged * excerpt_len, tv);
+                max_pos = i + merged < num_excerpts
+                    ? excerpts[i + merged]->start_pos - 1 : tv->offset_cnt - 1;
+                excerpt_expand(ei, merged * excerpt_len, tv, min_pos, max_pos);
+                min_pos = ei->end_pos + 1;
                 ary_push(excerpt_strs,
                          excerpt_get_str(ei, mv, lazy_df,
-                                         pre_tag, post_tag, ellipsis));
+                                         pre_tag, post_tag, ellipsis,
+                                         i + merged >= num_excerpts));
                 i += merged;
             }
             for (i = 0; i < num_excerpts; i++) {
-- 
2.43.0


From 04f738d6bd0a67f0d5844d99297d56b0cbab1312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:43 +0000
Subject: [PATCH 84/89] fix: no excerpt consists of an ellipsis alone

---
 c/src/search.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index b99dd2b..feaa61c 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -968,10 +968,13 @@ char **searcher_highlight(Searcher *self,
                     ? excerpts[i + merged]->start_pos - 1 : tv->offset_cnt - 1;
                 excerpt_expand(ei, merged * excerpt_len, tv, min_pos, max_pos);
                 min_pos = ei->end_pos + 1;
-                ary_push(excerpt_strs,
-                         excerpt_get_str(ei, mv, lazy_df,
-                                         pre_tag, post_tag, ellipsis,
-                                         i + merged >= num_excerpts));
+                /* an excerpt that was to grow at the start may find no room */
+                if (ei->end_offset > ei->start_offset) {
+                    ary_push(excerpt_strs,
+                             excerpt_get_str(ei, mv, lazy_df,
+                                             pre_tag, post_tag, ellipsis,
+                                             i + merged >= num_excerpts));
+                }
                 i += merged;
             }
             for (i = 0; i < num_excerpts; i++) {
-- 
2.43.0


From d6aa93bc2953c91187fb2b6f730571f4753365e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:08 +0000
Subject: [PATCH 85/89] fix: highlighting a numeric range marks numbers only

---
 c/src/q_range.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index 4270909..29d8bcc 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -560,8 +560,8 @@ for (i = tv->term_cnt - 1; i >= 0; i--) {\
     TVTerm *tv_term = &(tv->terms[i]);\
     char *text = tv_term->text;\
     double num;\
-    sscanf(text, "%lg%n", &num, &len);\
-    if ((int)strlen(text) == len) { /* We have a number */\
+    if (sscanf(text, "%lg%n", &num, &len) == 1\
+        && (int)strlen(text) == len) { /* We have a number */\
         if (cond) {\
             const int tv_term_freq = tv_term->freq;\
             for (j = 0; j < tv_term_freq; j++) {\
-- 
2.43.0


From 1248c31e5e1e03a11ae22ee69df5d03f55df1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:24 +0000
Subject: [PATCH 86/89] fix: numeric ranges take in numbers only

---
 c/src/q_range.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index 29d8bcc..d179b51 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -330,8 +330,8 @@ typedef enum {
 #define SET_DOCS(cond)\
 do {\
     if (term[0] > '9') break; /* done */\
-    sscanf(term, "%lg%n", &num, &len);\
-    if (len == te->curr_term_len) { /* We have a number */\
+    if (sscanf(term, "%lg%n", &num, &len) == 1\
+        && len == te->curr_term_len) { /* We have a number */\
         if (cond) {\
             tde->seek_te(tde, te);\
             while (tde->next(tde)) {\
-- 
2.43.0


From 20938928e306d82c33a7f48ea5feb9611dfb01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:09 +0000
Subject: [PATCH 87/89] fix: Index#to_s shows every document that is not
 deleted

---
 ruby/lib/ferret/index.rb | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index b36bafa..2616536 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -807,9 +807,7 @@ module Ferret::Index
 
     def to_s
       buf = ""
-      (0...(size)).each do |i|
-        buf << self[i].to_s + "\n" if not deleted?(i)
-      end
+      each {|doc| buf << doc.to_s + "\n"}
       buf
     end
 
-- 
2.43.0


From e926f417543544723bbf065d2ae455cbdafa3f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:09 +0000
Subject: [PATCH 88/89] fix: Index drops its searcher along with the reader
 that went out of date

---
 ruby/lib/ferret/index.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 2616536..6a80574 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -872,6 +872,7 @@ module Ferret::Index
             end
             if not latest
               @searcher.close if @searcher
+              @searcher = nil
               @reader.close
               return @reader = IndexReader.new(@dir)
             end
-- 
2.43.0


From 9cc65083cb2b1006bcdf3aeb6397a41214f3be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:56 +0000
Subject: [PATCH 89/89] fix: Index#update works with auto_flush

---
 ruby/lib/ferret/index.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 6a80574..e2a7ebd 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -570,7 +570,8 @@ module Ferret::Index
       @dir.synchronize do
         ensure_writer_open()
         delete(id)
-        if id.is_a?(String) or id.is_a?(Symbol)
+        # delete may have closed the writer, or opened the reader
+        if @writer
           @writer.commit
         else
           ensure_writer_open()
-- 
2.43.0

