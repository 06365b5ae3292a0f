From 2e82948ed0e9140244a1f4a1d11c97ff078784d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 01/84] fix: check field and reference validity before logging
 and modifying a record

wg_set_field() gave up on an unrecognized external reference only after
the record had been taken out of its indexes and the journal entry had
been written; wg_set_new_field() and wg_delete_record() likewise logged
operations that they then refused.
---
 Db/dbdata.c | 63 +++++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..f9314d8 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -219,6 +219,15 @@ gint wg_delete_record(void* db, void *rec) {
     return -1;
 #endif
 
+  offset = ptrtooffset(db, rec);
+#if defined(CHECK) && defined(USE_CHILD_DB)
+  /* Check if it's a local record */
+  if(!is_local_offset(db, offset)) {
+    show_data_error(db, "not deleting an external record");
+    return -2;
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Log first, modify shared memory next */
   if(dbmemsegh(db)->logging.active) {
@@ -233,15 +242,6 @@ gint wg_delete_record(void* db, void *rec) {
       return -3; /* index error */
   }
 
-  offset = ptrtooffset(db, rec);
-#if defined(CHECK) && defined(USE_CHILD_DB)
-  /* Check if it's a local record */
-  if(!is_local_offset(db, offset)) {
-    show_data_error(db, "not deleting an external record");
-    return -2;
-  }
-#endif
-
   /* Loop over fields, freeing them */
   dendptr = (gint *) (((char *) rec) + datarec_size_bytes(*((gint *)rec)));
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
@@ -627,6 +627,17 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
+#ifdef USE_CHILD_DB
+  /* Get the offset owner */
+  if(isptr(data)) {
+    offset_owner = get_ptr_owner(db, data);
+    if(!offset_owner) {
+      show_data_error(db, "External reference not recognized");
+      return -5;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
@@ -683,17 +694,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-#ifdef USE_CHILD_DB
-  /* Get the offset owner */
-  if(isptr(data)) {
-    offset_owner = get_ptr_owner(db, data);
-    if(!offset_owner) {
-      show_data_error(db, "External reference not recognized");
-      return -5;
-    }
-  }
-#endif
-
 #ifdef USE_BACKLINKING
   /* Is the old field value a record pointer? If so, remove the backlink.
    * XXX: this can be optimized to use a custom macro instead of
@@ -834,11 +834,11 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
+  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
+#ifdef CHECK
+  if(*fieldadr) {
+    show_data_error(db,"wg_set_new_field called on field that contains data");
+    return -2;
   }
 #endif
 
@@ -853,14 +853,15 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-  /* Write new value */
-  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
-#ifdef CHECK
-  if(*fieldadr) {
-    show_data_error(db,"wg_set_new_field called on field that contains data");
-    return -2;
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data))
+      return -6; /* journal error, cannot write */
   }
 #endif
+
+  /* Write new value */
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
-- 
2.43.0


From c559228857c883d6af46aec98dc9aedb41f128d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 02/84] fix: decide by the old value whether its backlink has
 to be removed

wg_set_field() looked at the owner of the new value: replacing a local
record reference by an external one left the backlink in place, and
replacing an external reference by a local value walked the external
record's backlinks.
---
 Db/dbdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index f9314d8..eb38356 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -702,7 +702,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_CHILD_DB
   /* Only touch local records */
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    is_local_offset(db, decode_datarec_offset(fielddata))) {
 #else
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
 #endif
-- 
2.43.0


From c61f78df64a63ebcaede8bc31132a78b6679f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 03/84] fix: keep every index entry once when a referenced or
 raw record changes

The index entries of referring records were removed and added again once
per path that leads to the changed record, so duplicate links, shared
ancestors and cycles produced duplicate entries (or an index error), and
a self-reference made wg_set_field() follow a freed backlink cell.
wg_set_new_field() entered a raw record repeatedly into multi-column and
template indexes and did not take out entries of referring records.
---
 Db/dbdata.c  | 49 ++++++++++++++++++++++++++++++++++++++++++++++---
 Db/dbhash.c  |  4 ++--
 Db/dbindex.c |  5 +++--
 3 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index eb38356..7432559 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -546,7 +546,11 @@ static gint restore_backlink_index_entries(void *db, gint *record,
     for(col=0; col<length; col++) {
       if(*(record + RECORD_HEADER_GINTS + col) == value) {
         if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_add_field(db, record, col) < -1)
+          /* The record may be reached by several paths (or may contain
+           * several links to the child), but it must be entered once.
+           */
+          if(wg_index_del_field(db, record, col) < -1 ||
+            wg_index_add_field(db, record, col) < -1)
             return -1;
         }
       }
@@ -779,8 +783,11 @@ setfld_backlink_removed:
 #endif
 
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records */
-  if(backlink_list) {
+  /* Create new entries in indexes in all referring records. The start
+   * of the chain may have changed, if the record refers to itself.
+   */
+  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  if(rec_enc != WG_ILLEGAL && backlink_list) {
     gint err;
     gcell *next = (gcell *) offsettoptr(db, backlink_list);
     for(;;) {
@@ -861,6 +868,42 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* Remove the index entries that depend on the old (NULL) value. The
+   * record itself may already be present in multi-column indexes and
+   * indexes that have a template, because of its other fields.
+   */
+#ifdef USE_INDEX_TEMPLATE
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    (dbh->index_control_area_header.index_table[fieldnr] ||\
+     dbh->index_control_area_header.index_template_table[fieldnr])) {
+#else
+  if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
+    dbh->index_control_area_header.index_table[fieldnr]) {
+#endif
+    if(wg_index_del_field(db, record, fieldnr) < -1)
+      return -3; /* index error */
+  }
+
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  if(backlink_list) {
+    gint err;
+    gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    gint rec_enc = wg_encode_record(db, record);
+    for(;;) {
+      err = remove_backlink_index_entries(db,
+        (gint *) offsettoptr(db, next->car),
+        rec_enc, WG_COMPARE_REC_DEPTH-1);
+      if(err) {
+        return -4;
+      }
+      if(!next->cdr)
+        break;
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+  }
+#endif
+
   /* Write new value */
   (*fieldadr)=data;
 
diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..ae6d694 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -512,7 +512,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
   /* Find the correct bucket. */
   bucket = find_idxhash_bucket(db, data, length, &bucket_offset);
   if(!bucket) {
-    return show_hash_error(db, "wg_idxhash_remove: Hash value not found.");
+    return -1; /* nothing to remove */
   }
 
   /* Remove the record offset from the list. */
@@ -528,7 +528,7 @@ gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
     }
     next_offset = &(rec_cell->cdr);
   }
-  return show_hash_error(db, "wg_idxhash_remove: Offset not found");
+  return -1; /* nothing to remove */
 
 is_bucket_empty:
   if(!(*reclist_offset)) {
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..1d931df 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2640,15 +2640,16 @@ void * wg_get_all_indexes(void *db, gint *count) {
       break; \
   }
 
+/* A row that is not in the index is not an error here. */
 #define INDEX_REMOVE_ROW(d, h, i, r) \
   switch(h->type) { \
     case WG_INDEX_TYPE_TTREE: \
-      if(ttree_remove_row(d, i, r) < -2) \
+      if(ttree_remove_row(d, i, r) < -3) \
         return -2; \
       break; \
     case WG_INDEX_TYPE_TTREE_JSON: \
       if(is_plain_record(r)) { \
-        if(ttree_remove_row(d, i, r) < -2) \
+        if(ttree_remove_row(d, i, r) < -3) \
           return -2; \
       } \
       break; \
-- 
2.43.0


From 73378e6695ec8b4837f47450dbf776eb38be4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 04/84] fix: wg_get_next_parent() loops over a parent with
 several links to the child

---
 Db/dbdata.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 7432559..3f42c97 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -447,12 +447,23 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
     gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    while(next->cdr) {
-      void *pp = (void *) offsettoptr(db, next->car);
-      next = (gcell *) offsettoptr(db, next->cdr);
-      if(pp == parent && next->car) {
-        return (void *) offsettoptr(db, next->car);
+    int found = 0;
+    for(;;) {
+      if(found) {
+        /* A parent that refers to the record from several fields
+         * is listed several times. Return it for the first one only.
+         */
+        gcell *prev = (gcell *) offsettoptr(db, backlink_list);
+        while(prev != next && prev->car != next->car)
+          prev = (gcell *) offsettoptr(db, prev->cdr);
+        if(prev == next)
+          return (void *) offsettoptr(db, next->car);
+      } else if((void *) offsettoptr(db, next->car) == parent) {
+        found = 1;
       }
+      if(!next->cdr)
+        break;
+      next = (gcell *) offsettoptr(db, next->cdr);
     }
   }
 #endif /* USE_BACKLINKING */
-- 
2.43.0


From abbf3e55e370d6a1b07285a4da1698383368239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 05/84] fix: a refused wg_drop_index() leaves the hash index
 intact

Hash indexes cannot be dropped, but the index was taken out of the index
lists before that was found out; it was no longer updated and
wg_get_all_indexes() reported a corrupted control area.
---
 Db/dbindex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 1d931df..3142f59 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2284,6 +2284,11 @@ gint wg_drop_index(void *db, gint index_id){
     ilistelem = (gcell *) offsettoptr(db, *ilist);
     if(ilistelem->car == index_id) {
       hdr = (wg_index_header *) offsettoptr(db, index_id);
+      if(hdr->type == WG_INDEX_TYPE_HASH ||\
+        hdr->type == WG_INDEX_TYPE_HASH_JSON) {
+        /* Not possible yet, leave the index as it is */
+        return drop_hash_index(db, index_id);
+      }
       /* Delete current element */
       delete_from_list(db, ilist);
       break;
-- 
2.43.0


From 4c781a931d2af1c798dd07e7e107f563731660b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 06/84] fix: wg_get_all_indexes() counted multi-column indexes
 once per column

It wrote past the end of the result array and then reported that the
index control area is corrupted.
---
 Db/dbindex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 3142f59..d64ec60 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2604,7 +2604,12 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        /* A multi-column index is listed under each of its columns */
+        if(hdr->rec_field_index[0] == column &&\
+          *count < dbh->index_control_area_header.number_of_indexes)
+          res[(*count)++] = ilistelem->car;
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From b823f946ca821d977eb6fe1ef6cadce69ffc7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 07/84] fix: creating a multi-column hash index read past the
 end of short records

Only records that have all the indexed columns belong to the index.
---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index d64ec60..cf1699a 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From 45f52fac44bc266d55a7796f1b6dc67739140326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 08/84] fix: refuse invalid index types and columns before
 creating the index

The header of an index of an unknown type remained in the column's index
list, so that later updates of the column ran into it. A negative column
number addressed memory in front of the index table.
---
 Db/dbindex.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index cf1699a..b374cf4 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2092,13 +2092,21 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
     return -1;
   }
 
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&\
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    /* This includes WG_INDEX_TYPE_TTREE_JSON, until proper
+     * implementation exists */
+    show_index_error(db, "Invalid index type");
+    return -1;
+  }
+
   if(sort_columns(sorted_cols, columns, col_count) < col_count) {
     show_index_error(db, "Duplicate columns not allowed");
     return -1;
   }
 
   for(i=0; i<col_count; i++) {
-    if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
+    if(sorted_cols[i] < 0 || sorted_cols[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
         MAX_INDEXED_FIELDNR);
       return -1;
-- 
2.43.0


From aafc30f769f62b23b3e7a91669975fcedc9ee0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 09/84] fix: keep index templates out of other indexes and out
 of the data

The match record of a new template was entered into existing indexes
before it was marked as non-data, so queries returned it; and the mark was
not journaled, so that it became a data record when the journal was
replayed.
---
 Db/dbindex.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index b374cf4..4bca796 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -46,6 +46,9 @@ extern "C" {
 #include "dbcompare.h"
 #include "dbhash.h"
 #include "dbutil.h"
+#ifdef USE_DBLOG
+#include "dblog.h"
+#endif
 
 
 /* ====== Private defs =========== */
@@ -1826,12 +1829,19 @@ nextelem:
   rec = wg_create_raw_record(db, reclen);
   if(!rec)
     return 0;
+  /* Mark it as non-data first, it should not be entered in indexes */
+  meta = ((gint *) rec + RECORD_META_POS);
+  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
+#ifdef USE_DBLOG
+  if(dbh->logging.active) {
+    if(wg_log_set_meta(db, rec, *meta))
+      return 0;
+  }
+#endif
   for(i=0; i<reclen; i++) {
     if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
       return 0;
   }
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
-- 
2.43.0


From ec7ac81093019ecc523cbb8a8a912c1b945c45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 10/84] fix: finish building a query whose index range is empty

The query object was returned before it was converted to a prefetch
query, with the result count and the memory pool uninitialized.
---
 Db/dbquery.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..ef2c555 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -815,15 +815,10 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
     /* Simple sanity check. Is start_bound greater than end_bound? */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
       WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
-      /* return empty query */
-      query->argc = 0;
-      query->arglist = NULL;
-      free(full_arglist);
-      return query;
+      /* Empty query: no rows in range (curr_offset is 0) */
     }
-
     /* Now find the bounding nodes for the query */
-    if(find_ttree_bounds(db, index_id, col,
+    else if(find_ttree_bounds(db, index_id, col,
         start_bound, end_bound, start_inclusive, end_inclusive,
         &query->curr_offset, &query->curr_slot, &query->end_offset,
         &query->end_slot)) {
-- 
2.43.0


From ff4fc26021bf3dd0c83ba15821fb2135aa6aec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 11/84] fix: x > v and x < v returned rows if v spans several
 T-tree nodes

The end of the range was found before its start, and fetching ran from
the start to the end of the index.
---
 Db/dbquery.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index ef2c555..a8a910d 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,9 +812,13 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
+    /* Simple sanity check. Is start_bound greater than end_bound, or
+     * is a range that consists of one value excluding that value?
+     */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
+      (WG_COMPARE(db, start_bound, end_bound) == WG_GREATER ||\
+      (WG_COMPARE(db, start_bound, end_bound) == WG_EQUAL &&\
+      !(start_inclusive && end_inclusive)))) {
       /* Empty query: no rows in range (curr_offset is 0) */
     }
     /* Now find the bounding nodes for the query */
-- 
2.43.0


From 28cf290baa5a3185cc15c33483a014381f0cb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 12/84] fix: wg_add_int_atomic_field() computed the sum as an
 int

Sums beyond 28 bits were refused or (with a large old value) truncated.
---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 3f42c97..b0e2144 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1161,8 +1161,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From 79a90bd858b3fb9ec61161e7998b547bd95e4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 13/84] fix: order NaN consistently

A NaN compared less than everything, from either side, and unequal to
itself: T-tree indexes that contained one became unordered.
---
 Db/dbcompare.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbcompare.c b/Db/dbcompare.c
index c8ddbac..fda27b1 100644
--- a/Db/dbcompare.c
+++ b/Db/dbcompare.c
@@ -176,6 +176,11 @@ gint wg_compare(void *db, gint a, gint b, int depth) {
         deca = wg_decode_double(db, a);
         decb = wg_decode_double(db, b);
         if(deca==decb) return WG_EQUAL; /* decoded doubles can be equal */
+        if(deca!=deca || decb!=decb) {
+          /* NaN is equal to itself and greater than any number */
+          if(decb==decb) return WG_GREATER;
+          return (deca==deca ? WG_LESSTHAN : WG_EQUAL);
+        }
         return (deca>decb ? WG_GREATER : WG_LESSTHAN);
       }
     }
-- 
2.43.0


From 93706a3f64f89a68072cf4cef1f453c9c5d73620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 14/84] fix: hash indexes distinguished integers by their low
 32 bits only

A search in a hash index, and thus a JSON query that uses one, returned
records with a different value.
---
 Db/dbhash.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index ae6d694..f848698 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -312,9 +312,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_int(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
@@ -358,9 +358,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_var(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_var(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_ANONCONSTTYPE:
       /* Ignore anonconst */
-- 
2.43.0


From edb40ce3378b93a54bcd37365c0c36f93d34ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 15/84] fix: storing a blob in a hash-indexed field

wg_set_field() failed with an index error after the value was written.
---
 Db/dbhash.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index f848698..205aeb2 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -342,6 +342,12 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       exdata = wg_decode_xmlliteral_xsdtype(db, enc);
       CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
       break;
+    case WG_BLOBTYPE:
+      len = wg_decode_blob_len(db, enc);
+      bytedata = wg_decode_blob(db, enc);
+      exdata = wg_decode_blob_type(db, enc);
+      CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
+      break;
     case WG_CHARTYPE:
       len = sizeof(int);
       intdata = wg_decode_char(db, enc);
-- 
2.43.0


From a908b413967471ec77154cbfbc5cfb3640f6cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:57 +0000
Subject: [PATCH 16/84] fix: hash index keys of different blobs could coincide

The type and the content of a blob, or the blob and the next column, were
joined by a zero byte that can be part of the blob.
---
 Db/dbhash.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 205aeb2..4f9e695 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -286,14 +286,15 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  * returns 0 if the decode failed.
  *
  * NOTE: to differentiate between identical byte strings
- * the value is prefixed with a type identifier.
- * TODO: For values with varying length that can contain
- * '\0' bytes, add length to the prefix.
+ * the value is prefixed with a type identifier. Blobs have a varying
+ * length and can contain '\0' bytes, their lengths are added to the prefix.
  */
 gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
   gint len;
   gint type;
   gint ptrdata;
+  gint bloblen[2];
+  gint prefixlen = 1;
   int intdata;
   double doubledata;
   char *bytedata;
@@ -346,7 +347,10 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       len = wg_decode_blob_len(db, enc);
       bytedata = wg_decode_blob(db, enc);
       exdata = wg_decode_blob_type(db, enc);
+      bloblen[0] = len;
       CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
+      bloblen[1] = len;
+      prefixlen += sizeof(bloblen);
       break;
     case WG_CHARTYPE:
       len = sizeof(int);
@@ -375,10 +379,13 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
   }
 
   /* Form the hashable buffer. It is not 0-terminated */
-  outbuf = malloc(len + 1);
+  outbuf = malloc(len + prefixlen);
   if(outbuf) {
     outbuf[0] = (char) type;
-    memcpy(outbuf + 1, bytedata, len++);
+    if(type == WG_BLOBTYPE)
+      memcpy(outbuf + 1, bloblen, sizeof(bloblen));
+    memcpy(outbuf + prefixlen, bytedata, len);
+    len += prefixlen;
     *decbytes = outbuf;
   } else {
     /* Indicate failure */
-- 
2.43.0


From 418ae22e0e4e737db4c4d9bd916e807aa15f45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:04 +0000
Subject: [PATCH 17/84] fix: refuse varlen objects larger than the segment

Sizes beyond the last free list bucket made the allocator read outside the
bucket array and crash.
---
 Db/dballoc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2e9bf9b..96585e4 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -883,8 +883,12 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   db_area_header* areah;
 
   areah=(db_area_header*)area_header;
+  // no object is larger than the segment (there are no buckets for such sizes)
+  if (nr<0 || nr>dbmemsegh(db)->size/(gint)sizeof(gint)) {
+    show_dballoc_error_nr(db," cannot allocate a varlen object of gints: ",nr);
+    return 0;
+  }
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
-  if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
   /* XXX: modifying the next line breaks encode_query_param_unistr().
    * Rewrite this using macros to reduce the chance of accidental breakage */
-- 
2.43.0


From 57f078e4d4ab406449ad834dca36982e5ff61ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 18/84] fix: free the nodes of a dropped T-tree without chained
 nodes

---
 Db/dbindex.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 4bca796..bec80e2 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1427,6 +1427,19 @@ static gint create_ttree_index(void *db, gint index_id){
   return 0;
 }
 
+#ifndef TTREE_CHAINED_NODES
+/**  frees the T-nodes of a subtree
+ */
+static void free_ttree_nodes(void *db, gint offset) {
+  struct wg_tnode *node = (struct wg_tnode *) offsettoptr(db, offset);
+  if(node->left_child_offset)
+    free_ttree_nodes(db, node->left_child_offset);
+  if(node->right_child_offset)
+    free_ttree_nodes(db, node->right_child_offset);
+  wg_free_tnode(db, offset);
+}
+#endif
+
 /** Drop T-tree index by id
 *  Frees the memory in the T-node area
 *  returns:
@@ -1434,19 +1447,20 @@ static gint create_ttree_index(void *db, gint index_id){
 *  -1 - error
 */
 static gint drop_ttree_index(void *db, gint index_id){
+#ifdef TTREE_CHAINED_NODES
   struct wg_tnode *node;
+#endif
   wg_index_header *hdr;
 
   hdr = (wg_index_header *) offsettoptr(db, index_id);
 
   /* Free the T-node memory. This is trivial for chained nodes, since
    * once we've found a successor for a node it can be deleted and
-   * forgotten about. For plain T-tree this does not work since tree
-   * traversal often runs down and up parent-child chains, which means
-   * that some parents cannot be deleted before their children.
+   * forgotten about. In a plain T-tree the children of a node are
+   * freed before the node.
    */
-  node = NULL;
 #ifdef TTREE_CHAINED_NODES
+  node = NULL;
   if(TTREE_MIN_NODE(hdr))
     node = (struct wg_tnode *) offsettoptr(db, TTREE_MIN_NODE(hdr));
   else if(TTREE_ROOT_NODE(hdr)) /* normally this does not happen */
@@ -1460,8 +1474,8 @@ static gint drop_ttree_index(void *db, gint index_id){
     wg_free_tnode(db, deleteme);
   }
 #else
-  /* XXX: not implemented */
-  show_index_error(db, "Warning: T-node memory cannot be deallocated");
+  if(TTREE_ROOT_NODE(hdr))
+    free_ttree_nodes(db, TTREE_ROOT_NODE(hdr));
 #endif
 
   return 0;
-- 
2.43.0


From 2c2a986c6387c331deb31185b6164693638217df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 19/84] fix: initialize the use count of a new index template

In memory that is not zeroed the template, its match record and its list
element stayed behind after the last index using it was dropped.
---
 Db/dbindex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index bec80e2..52212fa 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1862,6 +1862,7 @@ nextelem:
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0; /* the caller counts its index */
 
   /* Insert it into the template list */
   if(!insert_into_list(db, ilist, template_offset))
-- 
2.43.0


From 3fca3efacaf05e777c80370b3ff05e3380bd7912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 20/84] fix: journal the full width of integers that need
 allocated storage

wg_log_encode() read the value through an int pointer, so integers outside the
small integer range were truncated or skipped while their encoded value was
still appended, leaving a journal that cannot be replayed.
---
 Db/dblog.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..c0759b9 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -532,12 +532,12 @@ gint recover_encode(void *db, FILE *f, gint type)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
-  int intval;
+  gint intval;
   double doubleval;
 
   switch(type) {
     case WG_INTTYPE:
-      if(fread((char *) &intval, sizeof(int), 1, f) != 1) {
+      if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
         return WG_ILLEGAL;
       }
@@ -1079,14 +1079,14 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return 0;
       break;
     case WG_INTTYPE:
-      /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      /* gint argument */
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
       } else {
-        buflen = 1 + sizeof(int);
+        buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
         optr = buf + 1;
-        *((int *) optr) = *((int *) data);
+        memcpy(optr, data, sizeof(gint));
       }
       break;
     case WG_DOUBLETYPE:
-- 
2.43.0


From 5642431ffac2c24dfe6aba1b47927fdc07cbd2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 21/84] fix: report an encode entry of an unknown type in the
 journal

recover_encode() returned -1, which the caller does not take for an error, so
the malformed entry was accepted and its bogus value mapped.
---
 Db/dblog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index c0759b9..1dc7220 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -596,7 +596,8 @@ gint recover_encode(void *db, FILE *f, gint type)
       break;
   }
 
-  return show_log_error(db, "Unsupported data type");
+  show_log_error(db, "Unsupported data type");
+  return WG_ILLEGAL;
 }
 
 /** Parse the journal file. Used internally only.
-- 
2.43.0


From ceb3dac851458eee2617a9e2f364fcd8762eac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 22/84] fix: do not create a record on replay when its creation
 had failed

---
 Db/dblog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 1dc7220..178f1b9 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -616,9 +616,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
       case WG_JOURNAL_ENTRY_CRE:
         GET_LOG_VARINT(db, f, length, -1)
         GET_LOG_VARINT(db, f, offset, -1)
-        rec = wg_create_record(db, length);
+        /* A zero offset means that the record was never created */
         if(offset != 0) {
-          /* XXX: should we have even tried if this failed earlier? */
+          rec = wg_create_record(db, length);
           if(!rec) {
             return show_log_error(db, "Failed to create a new record");
           }
-- 
2.43.0


From e9ef01028e29c20d8a0b670ae14854ea6549a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 23/84] fix: let the latest journal translation of an offset
 apply on replay

When storage was freed and reused while logging, the replay kept using the first
translation of that offset (or a stale one where the new offset was identical)
and stored fields into the wrong records or values.
---
 Db/dbhash.c |  8 ++++++++
 Db/dblog.c  | 21 +++++++++++----------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 4f9e695..fbf853c 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -608,6 +608,7 @@ void *wg_ginthash_init(void *db) {
 
 /** Add a key/value pair to the hash table.
  *  tbl should be created with wg_ginthash_init()
+ *  If the key is already present, its value is replaced.
  *  Returns 0 on success
  *  Returns -1 on failure
  */
@@ -627,6 +628,13 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
     ((ext_ginthash *)tbl)->directory[hash] = bucket;
   }
   else {
+    int i;
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
     add_to_bucket(bucket, key, val);
     while(bucket->fill > GINTHASH_BUCKETCAP) {
       ginthash_bucket *newb;
diff --git a/Db/dblog.c b/Db/dblog.c
index 178f1b9..8c0f7bb 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -448,6 +448,11 @@ static int fget_varint(void *db, FILE *f, wg_uint *val) {
  */
 static gint add_tran_offset(void *db, void *table, gint old, gint new)
 {
+  gint prev;
+  /* An offset may be reused in the log, the last translation applies.
+   * Identity does not need to be stored unless it replaces something. */
+  if(old == new && wg_ginthash_getkey(db, table, old, &prev))
+    return 0;
   return wg_ginthash_addkey(db, table, old, new);
 }
 
@@ -623,11 +628,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
             return show_log_error(db, "Failed to create a new record");
           }
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
-            if(add_tran_offset(db, table, offset, newoffset)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_offset(db, table, offset, newoffset)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
@@ -648,11 +651,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
-            if(add_tran_enc(db, table, enc, newenc)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_enc(db, table, enc, newenc)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
-- 
2.43.0


From fa36a4fcb0c0efc87c44f08ad5af1d39aa0b11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 24/84] fix: journal the metadata of parameter triples

A replay turned them into ordinary, visible data records.
---
 Db/dbschema.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 58575d8..b0dd6c1 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -68,11 +68,19 @@ static gint show_schema_error(void *db, char *errmsg);
  */
 void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
   void *rec = wg_create_raw_record(db, WG_SCHEMA_TRIPLE_SIZE);
-  gint *meta;
+  gint *metap, meta;
   if(rec) {
-    meta = ((gint *) rec + RECORD_META_POS);
+    metap = ((gint *) rec + RECORD_META_POS);
     if(isparam) {
-      *meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+      meta = *metap; /* Temp variable used for write-ahead logging */
+      meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        if(wg_log_set_meta(db, rec, meta))
+          return NULL;
+      }
+#endif
+      *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
       return NULL; /* index error */
     }
-- 
2.43.0


From afe3f0cdc319c92d98833d7b7158caff7797aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:17 +0000
Subject: [PATCH 25/84] fix: reindex a record when its metadata is replayed
 from the journal

The replay adds the plain record to the indexes of the base database before the
metadata entry marks it as a parameter, so it stayed in the indexes for good.
---
 Db/dblog.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index 8c0f7bb..bbe773e 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -58,6 +58,7 @@ extern "C" {
 #endif
 #include "dballoc.h"
 #include "dbdata.h"
+#include "dbindex.h"
 #include "dbhash.h"
 
 /* ====== Private headers and defs ======== */
@@ -673,7 +674,18 @@ static gint recover_journal(void *db, FILE *f, void *table)
         GET_LOG_VARINT(db, f, meta, -1)
         newoffset = translate_offset(db, table, offset);
         rec = offsettoptr(db, newoffset);
+        /* The metadata decides whether and how the record is indexed */
+        if(!is_special_record(rec)) {
+          if(wg_index_del_rec(db, rec) < -1) {
+            return show_log_error(db, "Failed to set metadata");
+          }
+        }
         *((gint *) rec + RECORD_META_POS) = meta;
+        if(!is_special_record(rec)) {
+          if(wg_index_add_rec(db, rec) < -1) {
+            return show_log_error(db, "Failed to set metadata");
+          }
+        }
         break;
       default:
         return show_log_error(db, "Invalid log entry");
-- 
2.43.0


From 45c3b85a3d24a8ce8a6330d6fbc7d817a755ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:17 +0000
Subject: [PATCH 26/84] fix: do not nest journal entries when encoding a string
 with an extra string

Storing the language, type or prefix string logged an entry of its own between
the entry of the string and its encoded value, so that the journal could not be
replayed.
---
 Db/dbdata.c | 61 +++++++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index b0e2144..fef939e 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -91,6 +91,7 @@ static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *da
 
 static gint free_field_encoffset(void* db,gint encoffset);
 static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length);
+static gint encode_unistr_nolog(void* db, const char* str, const char* lang, gint type);
 
 #ifdef USE_CHILD_DB
 static void *get_ptr_owner(void *db, gint encoded);
@@ -2537,6 +2538,33 @@ Universal funs for string, xmlliteral, uri, blob
 
 
 gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+  gint enc;
+
+#ifdef USE_DBLOG
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, (gint)(strlen(str)), lang, extlen))
+      return WG_ILLEGAL;
+  }
+#endif
+  enc=encode_unistr_nolog(db,str,lang,type);
+#ifdef USE_DBLOG
+  /* Append the result (also when the encoding failed) */
+  if(dbmemsegh(db)->logging.active) {
+    if(wg_log_encval(db, enc))
+      return WG_ILLEGAL; /* journal error */
+  }
+#endif
+  return enc;
+}
+
+/** Store a string without journal logging
+ *
+ * The journal entry of a string covers its extra string as well.
+ */
+static gint encode_unistr_nolog(void* db, const char* str, const char* lang, gint type) {
   gint offset;
   gint len;
 #ifdef USETINYSTR
@@ -2547,15 +2575,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   char* dendptr;
 
   len=(gint)(strlen(str));
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    gint extlen = 0;
-    if(lang) extlen = strlen(lang);
-    if(wg_log_encode(db, type, str, len, lang, extlen))
-      return WG_ILLEGAL;
-  }
-#endif
 #ifdef USETINYSTR
 /* XXX: add tinystr support to logging */
 #ifdef USE_DBLOG
@@ -2577,11 +2596,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     offset=alloc_shortstr(db);
     if (!offset) {
       show_data_error_str(db,"cannot store a string in wg_encode_unistr",str);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     // loop over bytes, storing them starting from offset
@@ -2594,31 +2608,14 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     for(sptr=(char *) str; (*dptr=*sptr)!=0; sptr++, dptr++) {}; // copy string
     for(dptr++; dptr<dendptr; dptr++) { *dptr=0; }; // zero the rest
     // store offset to field
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_shortstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_shortstr_offset(offset);
     //dbstore(db,ptrtoffset(record)+RECORD_HEADER_GINTS+fieldnr,encode_shortstr_offset(offset));
   } else {
     offset=find_create_longstr(db,str,lang,type,len+1);
     if (!offset) {
       show_data_error_nr(db,"cannot create a string of size ",len);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_longstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_longstr_offset(offset);
   }
 }
@@ -2691,7 +2688,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     }
     // if extrastr exists, encode extrastr and store ptr to longstr record field
     if (extrastr!=NULL) {
-      tmp=wg_encode_str(db,extrastr,NULL);
+      tmp=encode_unistr_nolog(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
         return 0;
-- 
2.43.0


From 51c7169ee8ee864be41f450956c07df1c2665524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:17 +0000
Subject: [PATCH 27/84] fix: journal blobs

Encoding a blob was not logged, so a replay set the field to storage that does
not exist in the recovered database.
---
 Db/dbdata.c | 20 ++++++++++++++++++++
 Db/dblog.c  |  9 ++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index fef939e..c5ea52b 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2624,13 +2624,33 @@ static gint encode_unistr_nolog(void* db, const char* str, const char* lang, gin
 gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, gint len) {
   gint offset;
 
+#ifdef USE_DBLOG
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    if(lang) extlen = strlen(lang);
+    if(wg_log_encode(db, type, str, len, lang, extlen))
+      return WG_ILLEGAL;
+  }
+#endif
   if (0) {
   } else {
     offset=find_create_longstr(db,str,lang,type,len);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        wg_log_encval(db, WG_ILLEGAL);
+      }
+#endif
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encval(db, encode_longstr_offset(offset)))
+        return WG_ILLEGAL; /* journal error */
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
diff --git a/Db/dblog.c b/Db/dblog.c
index bbe773e..671f5da 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -558,7 +558,7 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
@@ -593,7 +593,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE)
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -1114,7 +1117,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
-- 
2.43.0


From 58fd24d496002f0a7cf039498b19828ceb5fe3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:48 +0000
Subject: [PATCH 28/84] fix: forget the journal descriptor when it is closed
 after a failed write

Later entries were written to whatever file had reused the descriptor number.
---
 Db/dblog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 671f5da..f0aecb5 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -999,8 +999,10 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
 #else
   if(_write(ld->fd, (char *) buf, buflen) != buflen) {
 #endif
+    int fd = ld->fd;
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+    ld->fd = -1; /* closed below, do not use again */
+    JOURNAL_FAIL(fd, -5)
   }
 
   return 0;
-- 
2.43.0


From d4685bc89bf74ab3f411872945ee5f02e75a66d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 29/84] fix: take the lock before opening the dump file and
 reading the size

The size of the used area was read before other processes were locked out, so a
concurrent writer could extend it beyond what was dumped. A dump that failed to
get the lock had already truncated the previous dump, and leaked the file.
---
 Db/dbdump.c | 52 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..a4b699e 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -99,16 +99,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  /* Open the dump file */
-#ifdef _WIN32
-  if(fopen_s(&f, fileName, "wb")) {
-#else
-  if(!(f = fopen(fileName, "wb"))) {
-#endif
-    show_dump_error(db, "Error opening file");
-    return -1;
-  }
-
 #ifndef USE_DBLOG
   /* Get shared lock on the db */
   if(locking) {
@@ -127,13 +117,28 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
       return -1;
     }
   }
+#endif
+
+  /* Open the dump file. Done while holding the lock, so that an existing
+   * dump is not destroyed if the lock cannot be acquired. */
+#ifdef _WIN32
+  if(fopen_s(&f, fileName, "wb")) {
+#else
+  if(!(f = fopen(fileName, "wb"))) {
+#endif
+    show_dump_error(db, "Error opening file");
+    goto unlock;
+  }
 
+#ifdef USE_DBLOG
   active = dbh->logging.active;
   if(active) {
     wg_stop_logging(db);
   }
 #endif
 
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
@@ -146,9 +151,23 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     }
   }
 
+  fflush(f);
+  fclose(f);
+
   if(err)
     show_dump_error(db, "Error writing file");
 
+#ifdef USE_DBLOG
+  /* restart logging */
+  if(active) {
+    dbh->logging.dirty = 0;
+    if(wg_start_logging(db)) {
+      err = -2; /* Failed to re-initialize log */
+    }
+  }
+#endif
+
+unlock:
 #ifndef USE_DBLOG
   /* We're done writing */
   if(locking) {
@@ -158,14 +177,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     }
   }
 #else
-  /* restart logging */
-  if(active) {
-    dbh->logging.dirty = 0;
-    if(wg_start_logging(db)) {
-      err = -2; /* Failed to re-initialize log */
-    }
-  }
-
   if(locking) {
     if(!db_wulock(db, lock_id)) {
       show_dump_error(db, "Failed to unlock the database");
@@ -174,9 +185,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
-- 
2.43.0


From bd97fc2da9c57f15b4c9dd094485121e4c06b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 30/84] fix: report a dump that could not be written out
 completely

Errors that only show up when the buffered data is flushed were ignored.
---
 Db/dbdump.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index a4b699e..b9e8d5c 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -151,8 +151,11 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     }
   }
 
-  fflush(f);
-  fclose(f);
+  /* The dump is complete when it has been written out */
+  if(fflush(f))
+    err = -1;
+  if(fclose(f))
+    err = -1;
 
   if(err)
     show_dump_error(db, "Error writing file");
-- 
2.43.0


From 1d2bee2d53504f1b6e221436bb457a26bc753982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 31/84] fix: keep the journal when a dump fails and retire it
 when a dump succeeds

A failed dump discarded the journal that the last good dump needs. A dump made
while logging was stopped left the old journal marked as current, so logging
continued into a journal that does not belong to the new dump.
---
 Db/dbdump.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index b9e8d5c..d81d664 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -161,11 +161,17 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     show_dump_error(db, "Error writing file");
 
 #ifdef USE_DBLOG
-  /* restart logging */
-  if(active) {
+  if(err) {
+    /* No usable dump was created, so the existing journal must be kept */
+    dbh->logging.active = active;
+  } else {
+    /* The journal up to this point is included in the dump */
     dbh->logging.dirty = 0;
-    if(wg_start_logging(db)) {
-      err = -2; /* Failed to re-initialize log */
+    /* restart logging */
+    if(active) {
+      if(wg_start_logging(db)) {
+        err = -2; /* Failed to re-initialize log */
+      }
     }
   }
 #endif
-- 
2.43.0


From fde52c0e1e53e4375b9f6c364326e321f744b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 32/84] fix: keep the database key and the journal serial when
 importing a dump

The values of the dumped database replaced those of the importing one, which
then wrote its journal under the name of the other database, or kept writing
into a journal that had already been set aside.
---
 Db/dbdump.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index d81d664..86fd84c 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -297,10 +297,11 @@ gint wg_import_dump(void * db,char fileName[]) {
   db_memsegment_header* dumph;
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = -1, newsize;
+  gint dbsize = -1, newsize, key;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
 
 
@@ -342,6 +343,7 @@ gint wg_import_dump(void * db,char fileName[]) {
   } else if(dbsize > 0) {
     /* We have a compatible dump file. */
     newsize = dbh->size;
+    key = dbh->key;
     fseek(f, 0, SEEK_SET);
     if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
@@ -349,6 +351,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     } else {
       err = 0;
       dbh->size = newsize;
+      dbh->key = key;
       dbh->checksum = 0;
     }
   }
@@ -364,6 +367,7 @@ abort:
   /* restart logging */
   dbh->logging.dirty = 0;
   dbh->logging.active = 0;
+  dbh->logging.serial = serial; /* the journal belongs to this database */
   if(active) { /* state inherited from memory */
     if(wg_start_logging(db)) {
       return -2; /* Failed to re-initialize log */
-- 
2.43.0


From d7c06c2ea51d2cdb93c5991fcb1b430a8858e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 33/84] fix: reopen the journal when a new file replaced a
 removed one

If the old journal was removed by the user after a dump, no backup was made and
the serial number did not change, so handles kept writing into the removed file.
---
 Db/dblog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index f0aecb5..20ecd85 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -813,6 +813,7 @@ gint wg_start_logging(void *db)
 
   if(!dbh->logging.dirty) {
     /* logfile is clean, re-initialize */
+    dbh->logging.serial++; /* invalidate descriptors of earlier files */
     /* fseek(f, 0, SEEK_SET); */
 #ifndef _WIN32
     ftruncate(fd, 0); /* XXX: this is a no-op with backups */
-- 
2.43.0


From e67d979f1807b65c075b25071562c4b5c91587b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:05 +0000
Subject: [PATCH 34/84] fix: compute the checksum of a dump from the data that
 is written

---
 Db/dbdump.c | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 86fd84c..3fae453 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -30,6 +30,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef _WIN32
 #define WIN32_LEAN_AND_MEAN
@@ -57,6 +58,12 @@ extern "C" {
 #include "dbdump.h"
 #include "crc1.h"
 
+/* This has to be large enough to hold all the relevant
+ * fields in the header during the first pass of the read.
+ * (Currently this is the first 24 bytes of the dump file)
+ */
+#define BUFSIZE 8192
+
 /* ======= Private protos ================ */
 
 
@@ -85,13 +92,14 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize;
+  gint dbsize, pos, len;
 #ifdef USE_DBLOG
   gint active;
 #endif
   gint err = -1;
   gint lock_id = 0;
   gint32 crc;
+  char buf[BUFSIZE];
 
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
@@ -139,11 +147,22 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 
   dbsize = dbh->free; /* first unused offset - 0 = db size */
 
-  /* Compute the CRC32 of the used area */
-  crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
+  /* Write the memory area to file, computing the CRC32 of what is written.
+   * Processes waiting for the lock modify the lock queue in the meanwhile,
+   * so the checksum has to be computed from the same copy of the data.
+   */
+  crc = 0x0;
+  for(pos = 0; pos < dbsize; pos += len) {
+    len = dbsize - pos;
+    if(len > BUFSIZE)
+      len = BUFSIZE;
+    memcpy(buf, dbmemsegbytes(db) + pos, len);
+    crc = update_crc32(buf, len, crc);
+    if(fwrite(buf, len, 1, f) != 1)
+      break;
+  }
 
-  /* Now, write the memory area to file */
-  if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
+  if(pos >= dbsize) {
     /* Overwrite checksum field */
     fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
     if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
@@ -198,12 +217,6 @@ unlock:
 }
 
 
-/* This has to be large enough to hold all the relevant
- * fields in the header during the first pass of the read.
- * (Currently this is the first 24 bytes of the dump file)
- */
-#define BUFSIZE 8192
-
 /** Check dump file for compatibility and errors.
  *  Returns 0 when successful (no error).
  *  -1 on system error (cannot open file, no memory)
-- 
2.43.0


From 5250ed5dfc4e51133c5bb16a3662bee0da6326df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:00 +0000
Subject: [PATCH 35/84] fix: refuse blobs of negative length

---
 Db/dbdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index c5ea52b..a83f062 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2338,6 +2338,10 @@ wg_int wg_encode_blob(void* db, const char* str, const char* type, wg_int len) {
     show_data_error(db,"NULL string ptr given to wg_encode_blob");
     return WG_ILLEGAL;
   }
+  if (len<0) {
+    show_data_error_nr(db,"negative length given to wg_encode_blob:",len);
+    return WG_ILLEGAL;
+  }
 #endif
   return wg_encode_uniblob(db,str,type,WG_BLOBTYPE,len);
 }
-- 
2.43.0


From b647a774e3859022e4dcf281613d0e5a23dc346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 36/84] fix: convert the millisecond part of a queued lock
 timeout to nanoseconds

---
 Db/dblock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..a017051 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -144,7 +144,7 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 
 #define INIT_QLOCK_TIMEOUT(t, ts) \
   ts.tv_sec = t / 1000; \
-  ts.tv_nsec = t % 1000;
+  ts.tv_nsec = (t % 1000) * 1000000;
 
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
-- 
2.43.0


From 2f15684be4c5477aff7610d665419e41838e83d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 37/84] fix: do not take an interrupted wait for a granted
 queued lock

---
 Db/dblock.c | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index a017051..7907ed4 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1028,15 +1028,21 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may end early (signals, late wake-ups of the previous
+     * user of the cell), it's over when we have been granted the lock.
+     */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1145,15 +1151,21 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may end early (signals, late wake-ups of the previous
+     * user of the cell), it's over when we have been granted the lock.
+     */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From 80081fcd335f8f20f5907cc5c330906451cc2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 38/84] fix: keep a queued lock that was granted while its wait
 timed out

---
 Db/dblock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dblock.c b/Db/dblock.c
index 7907ed4..cdeb288 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1034,6 +1034,10 @@ gint db_tfqueue_wlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* granted in the meantime */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
@@ -1157,6 +1161,10 @@ gint db_tfqueue_rlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* granted in the meantime */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
-- 
2.43.0


From 1981a52d45bb5b9f0aad3e31fed21e8266872bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 39/84] fix: wake the readers queued behind a writer that gives
 up

---
 Db/dblock.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Db/dblock.c b/Db/dblock.c
index cdeb288..6d0e8e9 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -993,6 +993,9 @@ gint db_tfqueue_wlock(void * db) {
   gint lock, prev;
   lock_queue_node *lockp;
   db_memsegment_header* dbh;
+#ifdef USE_LOCK_TIMEOUT
+  volatile gint *syn_addr = NULL;
+#endif
 
 #ifdef CHECK
   if (!dbcheck(db)) {
@@ -1039,8 +1042,20 @@ gint db_tfqueue_wlock(void * db) {
           break;
         }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
+        if(lockp->prev && lockp->next) {
+          /* readers that waited for us can join the active ones */
+          lock_queue_node *prevp = offsettoptr(db, lockp->prev);
+          lock_queue_node *nextp = offsettoptr(db, lockp->next);
+          if(prevp->class == LOCKQ_READ && !prevp->waiting &&
+            nextp->class == LOCKQ_READ) {
+            nextp->waiting = 0;
+            syn_addr = &nextp->waiting;
+          }
+        }
         free_lock(db, lock);
         unlock_queue(db);
+        if(syn_addr)
+          futex_wake(syn_addr, 1);
         return 0;
       }
     }
-- 
2.43.0


From 2deb0e86ef079f8381e9f54165bf4deeb5010b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 40/84] fix: pass on a read lock granted before the wait for it
 started

---
 Db/dblock.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 6d0e8e9..39ab6f4 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1127,7 +1127,7 @@ gint db_tfqueue_rlock(void * db) {
 #else
   struct timespec ts;
 #endif
-  gint lock, prev;
+  gint lock, prev, waiting;
   lock_queue_node *lockp;
   db_memsegment_header* dbh;
 
@@ -1163,9 +1163,10 @@ gint db_tfqueue_rlock(void * db) {
   } else {
     lockp->waiting = 0;
   }
+  waiting = lockp->waiting;
   unlock_queue(db);
 
-  if(lockp->waiting) {
+  if(waiting) {
     volatile gint *syn_addr = NULL;
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-- 
2.43.0


From 18f7c0c185e3220e3fb5ff6043d73f0fcdf4d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:53 +0000
Subject: [PATCH 41/84] fix: refuse dates that do not exist

wg_ymd_to_date() and wg_strp_iso_date() took any day up to 31 of any
month, so that 2010-02-29 became the day number of 2010-03-01, and year
0 and years far beyond the encodable range gave arbitrary numbers.
---
 Db/dbdata.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index a83f062..4db893d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -84,6 +84,7 @@ static gint restore_backlink_index_entries(void *db, gint *record,
 #endif
 
 static int isleap(unsigned yr);
+static int valid_ymd(int yr, int mo, int day);
 static unsigned months_to_days (unsigned month);
 static long years_to_days (unsigned yr);
 static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
@@ -1844,7 +1845,7 @@ int wg_strp_iso_date(void* db, const char* inbuf) {
   int res;
 
   sres=sscanf(inbuf,"%4d-%2d-%2d",&yr,&mo,&day);
-  if (sres<3 || yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (sres<3 || !valid_ymd(yr,mo,day)) return -1;
   res=ymd_to_scalar(yr,mo,day);
   return res;
 }
@@ -1864,7 +1865,7 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
 
 
 int wg_ymd_to_date(void* db, int yr, int mo, int day) {
-  if (yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
+  if (!valid_ymd(yr,mo,day)) return -1;
   return ymd_to_scalar(yr,mo,day);
 }
 
@@ -2975,6 +2976,14 @@ static int isleap(unsigned yr) {
   return yr % 400 == 0 || (yr % 4 == 0 && yr % 100 != 0);
 }
 
+/* the years whose days can be encoded are 1...22788 */
+static int valid_ymd(int yr, int mo, int day) {
+  static const int days[] = {31,28,31,30,31,30,31,31,30,31,30,31};
+
+  if (yr<1 || yr>22788 || mo<1 || mo>12 || day<1) return 0;
+  return day <= days[mo-1] + (mo==2 && isleap(yr));
+}
+
 static unsigned months_to_days (unsigned month) {
   return (month * 3057 - 3007) / 100;
 }
-- 
2.43.0


From 7f5f0f1e1c01ccc4b42ef4b1d3ddaaa6ef0d63d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:53 +0000
Subject: [PATCH 42/84] fix: refuse times of day that do not exist

Minute 60, second 60 and times after 24:00:00.00 were taken, giving the
value of a different time or one that cannot be encoded.
---
 Db/dbdata.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 4db893d..5ad8f61 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1859,8 +1859,8 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int prt=0;
 
   sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
-  if (sres<3 || hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99) return -1;
-  return hr*(60*60*100)+min*(60*100)+sec*100+prt;
+  if (sres<3) return -1;
+  return wg_hms_to_time(db,hr,min,sec,prt);
 }
 
 
@@ -1871,7 +1871,9 @@ int wg_ymd_to_date(void* db, int yr, int mo, int day) {
 
 
 int wg_hms_to_time(void* db, int hr, int min, int sec, int prt) {
-  if (hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99)
+  if (hr<0 || hr>24 || min<0 || min>59 || sec<0 || sec>59 || prt<0 || prt>99)
+    return -1;
+  if (hr==24 && (min || sec || prt)) /* only 24:00 itself is an end of the day */
     return -1;
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
-- 
2.43.0


From 7212dc159a286c0e44a59df22eab4655aa723712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:53 +0000
Subject: [PATCH 43/84] fix: read a single decimal of a second as tenths

wg_strp_iso_time() took 12:00:00.5 as 12:00:00.05.
---
 Db/dbdata.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 5ad8f61..9457e5f 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1857,8 +1857,11 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int min=0;
   int sec=0;
   int prt=0;
+  int prtlen=0;
+  int prtstart=0;
 
-  sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
+  sres=sscanf(inbuf,"%2d:%2d:%2d.%n%2d%n",&hr,&min,&sec,&prtstart,&prt,&prtlen);
+  if (sres==4 && prtlen-prtstart==1) prt*=10; /* .5 is half a second */
   if (sres<3) return -1;
   return wg_hms_to_time(db,hr,min,sec,prt);
 }
-- 
2.43.0


From 5d9131876ce4ab3f00e2d4d8927a2f274571baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 44/84] fix: print integers in full

Integers beyond 32 bits were cut when a value was printed or exported to
a CSV file.
---
 Db/dbutil.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5716487..ced4e0c 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -246,8 +246,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%ld", (long) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -354,8 +353,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%ld", (long) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From c2b02e4a511bdb448679a79a8f84f102ef9dd97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 45/84] fix: export doubles without loss

The six decimals printed into a CSV file are not enough for most
values, small ones became zero.
---
 Db/dbutil.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index ced4e0c..686a945 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -90,6 +90,7 @@ static gint show_io_error(void *db, const char *errmsg);
 static gint show_io_error_str(void *db, const char *errmsg, const char *str);
 static void snprint_record(void *db, wg_int* rec, char *buf, int buflen);
 static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen);
+static void snprint_double_csv(double d, char *buf, int buflen);
 static void snprint_value_csv(void *db, gint enc, char *buf, int buflen);
 #if 0
 static gint parse_and_encode_uri(void *db, char *buf);
@@ -335,6 +336,19 @@ static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen) {
 }
 
 
+/** Print a double in fixed decimal notation, with as many decimals as
+ *  are needed to read the same value back.
+ */
+static void snprint_double_csv(double d, char *buf, int buflen) {
+  int prec;
+
+  for(prec=6; prec<=1080; prec++) {
+    snprintf(buf, buflen, "%.*f", prec, d);
+    if(!(strtod(buf, NULL) != d))
+      break;
+  }
+}
+
 /** Print a single, encoded value, into a CSV-friendly format
  *  The value is written into a character buffer.
  */
@@ -357,7 +371,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-      snprintf(buf, buflen, "%f", doubledata);
+      snprint_double_csv(doubledata, buf, buflen);
       break;
     case WG_FIXPOINTTYPE:
       doubledata = wg_decode_fixpoint(db, enc);
-- 
2.43.0


From e267c352247bb458ce5b601716435fd69fdb0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 46/84] fix: print dates after the year 9999 whole

The last digit of the day was cut off.
---
 Db/dbutil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 686a945..d8f69b7 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -281,7 +281,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
       wg_strf_iso_datetime(db,intdata,0,strbuf);
-      strbuf[10]=0;
+      strbuf[strcspn(strbuf, "T")]=0;
       snprintf(buf, buflen, "<raw date %d>%s", intdata,strbuf);
       break;
     case WG_TIMETYPE:
@@ -406,7 +406,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
       wg_strf_iso_datetime(db,intdata,0,strbuf);
-      strbuf[10]=0;
+      strbuf[strcspn(strbuf, "T")]=0;
       snprintf(buf, buflen, "%s", strbuf);
       break;
     case WG_TIMETYPE:
-- 
2.43.0


From 18dab5febc27ce6685c46e7713b82839ff23f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 47/84] fix: quote characters exported to CSV

A character that is a comma, a quote or a newline broke its row apart.
---
 Db/dbutil.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index d8f69b7..65ce740 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -400,8 +400,10 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       free(ibuf);
       break;
     case WG_CHARTYPE:
-      intdata = wg_decode_char(db, enc);
-      snprintf(buf, buflen, "%c", (char) intdata);
+      /* quoted, as it can be a separator or a quote itself */
+      strbuf[0] = wg_decode_char(db, enc);
+      strbuf[1] = '\0';
+      csv_escaped_str(db, strbuf, buf, buflen);
       break;
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
-- 
2.43.0


From d05c615976ac18609780d9d70ff31324a964d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 48/84] fix: export URIs that have no prefix

Printing the missing prefix gave "(null)" or a crash.
---
 Db/dbutil.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 65ce740..a66d051 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -355,7 +355,7 @@ static void snprint_double_csv(double d, char *buf, int buflen) {
 static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
   int intdata, ilen;
   double doubledata;
-  char strbuf[80], *ibuf;
+  char strbuf[80], *ibuf, *prefix;
 
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
@@ -394,8 +394,9 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
         show_io_error(db, "Failed to allocate memory");
         return;
       }
+      prefix = wg_decode_uri_prefix(db, enc);
       snprintf(ibuf, ilen+1, "%s%s",
-        wg_decode_uri_prefix(db, enc), wg_decode_uri(db, enc));
+        (prefix ? prefix : ""), wg_decode_uri(db, enc));
       csv_escaped_str(db, ibuf, buf, buflen);
       free(ibuf);
       break;
-- 
2.43.0


From 555d6ed00107d317172b34c4e587ddd1f85663da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 49/84] fix: import quoted CSV fields as text

The exported strings "" and "123" came back as NULL and as a number.
---
 Db/dbutil.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index a66d051..8608030 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -720,6 +720,7 @@ static gint fread_csv(void *db, FILE *f) {
   gint *encdata;
   gint err = 0;
   gint uq_field, quoted_field, esc_quote, eat_sep; /** State flags */
+  gint was_quoted; /** The field to be committed was quoted */
   gint commit_strbuf, commit_record;
   gint reclen;
   gint encdata_sz = CSV_ENCDATA_BUF;
@@ -739,7 +740,7 @@ static gint fread_csv(void *db, FILE *f) {
 
   /* Init parser state */
   reclen = 0;
-  uq_field = quoted_field = esc_quote = eat_sep = 0;
+  uq_field = quoted_field = esc_quote = eat_sep = was_quoted = 0;
   commit_strbuf = commit_record = 0;
   ptr = strbuf;
 
@@ -767,6 +768,7 @@ static gint fread_csv(void *db, FILE *f) {
         if(nextc!='"') {
           /* Field ends. Note that even EOF is acceptable here */
           quoted_field = 0;
+          was_quoted = 1;
           commit_strbuf = 1; /* set flag to commit buffer */
           eat_sep = 1; /* next separator can be ignored. */
         } else {
@@ -865,8 +867,12 @@ static gint fread_csv(void *db, FILE *f) {
       }
 
       /* Do the actual parsing. This also allocates database-side
-       * storage for the new data. */
-      enc = wg_parse_and_encode(db, strbuf);
+       * storage for the new data. Quoted fields are text. */
+      if(was_quoted)
+        enc = wg_encode_str(db, strbuf, NULL);
+      else
+        enc = wg_parse_and_encode(db, strbuf);
+      was_quoted = 0;
       if(enc == WG_ILLEGAL) {
         show_io_error_str(db, "Warning: failed to parse", strbuf);
         enc = 0; /* continue anyway */
-- 
2.43.0


From d1e0a3e3bbd365762eafe970f89906f77a600eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 50/84] fix: import the last line of a CSV file without a line
 end

The row was dropped.
---
 Db/dbutil.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 8608030..a1e5851 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -744,7 +744,7 @@ static gint fread_csv(void *db, FILE *f) {
   commit_strbuf = commit_record = 0;
   ptr = strbuf;
 
-  while(!feof(f)) {
+  for(;;) {
     /* Parse cycle consists:
      * 1. read character from stream. This can either:
      *   - change the state of the parser
@@ -755,15 +755,22 @@ static gint fread_csv(void *db, FILE *f) {
      *   - store the record in the database
      */
 
-    char c = (char) fgetc(f);
+    int c = fgetc(f);
+
+    if(c == EOF) {
+      if(quoted_field || (!uq_field && !reclen))
+        break;
+      c = 10; /* the last line does not need a line end */
+    }
 
     if(quoted_field) {
       /* We're parsing a quoted field. Anything we get is added to
        * strbuf unless it's a quote character.
        */
       if(!esc_quote && c == '"') {
-        char nextc = (char) fgetc(f);
-        ungetc((int) nextc, f);
+        int nextc = fgetc(f);
+        if(nextc != EOF)
+          ungetc(nextc, f);
 
         if(nextc!='"') {
           /* Field ends. Note that even EOF is acceptable here */
@@ -778,7 +785,7 @@ static gint fread_csv(void *db, FILE *f) {
         esc_quote = 0;
         /* read the character. It's simply ignored if the buffer is full */
         if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+          *ptr++ = (char) c;
       }
     } else if(uq_field) {
       /* In case of an unquoted field, terminator can be the field
@@ -796,7 +803,7 @@ static gint fread_csv(void *db, FILE *f) {
         commit_record = 1;
       } else {
         if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+          *ptr++ = (char) c;
       }
     } else {
       /* We are currently not parsing anything. Four things can happen:
@@ -839,7 +846,7 @@ static gint fread_csv(void *db, FILE *f) {
         }
         else {
           uq_field = 1;
-          *ptr++ = c;
+          *ptr++ = (char) c;
         }
       }
     }
-- 
2.43.0


From 57d6c84a7c3d97e56eb187018c1a3709fa5efdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 51/84] fix: only parse a text as a date or time when all of it
 is one

Texts that start like a date or a time, such as "2010-01-01 draft" or
"10-11-12 34", lost the rest.
---
 Db/dbutil.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index a1e5851..94f7f00 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -95,6 +95,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen);
 #if 0
 static gint parse_and_encode_uri(void *db, char *buf);
 #endif
+static int has_form(const char *buf, const char *form);
 static gint parse_input_type(void *db, const char *buf, gint *intdata,
                                         double *doubledata, gint *datetime);
 static gint fread_csv(void *db, FILE *f);
@@ -549,6 +550,22 @@ gint wg_parse_and_encode_param(void *db, const char *buf) {
   return encoded;
 }
 
+/** Check that the entire text has the given form: '9' stands for a digit
+ *  and a final '+' for any number of further digits.
+ */
+static int has_form(const char *buf, const char *form) {
+  for(; *form; form++) {
+    if(*form == '+') {
+      while(*buf >= '0' && *buf <= '9') buf++;
+    } else if(*form == '9' ? (*buf < '0' || *buf > '9') : *buf != *form) {
+      return 0;
+    } else {
+      buf++;
+    }
+  }
+  return !*buf;
+}
+
 /** Detect the type of input data in string format.
  *
  *  Supports following data types:
@@ -592,9 +609,11 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
   else if((c >= '0' && c <= '9') ||\
    (c == '-' && buf[1] >= '0' && buf[1] <= '9')) {
     /* This could be one of int, double, date or time */
-    if(c != '-' && (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
+    if(has_form(buf, "9999-99-99") &&
+     (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
       type = WG_DATETYPE;
-    } else if(c != '-' && (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
+    } else if((has_form(buf, "99:99:99") || has_form(buf, "99:99:99.9+")) &&
+     (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
       type = WG_TIMETYPE;
     } else {
       /* Examine the field contents to distinguish between float
-- 
2.43.0


From e34b7dc7069dc304dfcf63d5c09149108f99e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 52/84] fix: parse all digits of a number

Only the first 79 characters were used, without telling.
---
 Db/dbutil.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 94f7f00..5d46b84 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -620,7 +620,7 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
        * and int, then convert using atol()/atof(). sscanf() tends to
        * be too optimistic about the conversion, especially under Win32.
        */
-      char numbuf[80];
+      char numbuf[CSV_FIELD_BUF];
       const char *ptr = buf;
       char *wptr = numbuf, *decptr = NULL;
       int decsep = 0;
@@ -637,8 +637,10 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
           break;
         }
         *(wptr++) = *(ptr++);
-        if((int) (wptr - numbuf) >= 79)
+        if((int) (wptr - numbuf) >= CSV_FIELD_BUF-1) {
+          decsep = 2; /* too long for a number */
           break;
+        }
       }
       *wptr = '\0';
 
-- 
2.43.0


From 16a70677b2ea0320beda65806ad3276229772fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 53/84] fix: do not judge a parsed number by an old error

An errno left by any earlier call turned the next number parsed into a
string.
---
 Db/dbutil.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5d46b84..a3d97bd 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -647,19 +647,18 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
       if(decsep==1) {
         char tmp = *decptr;
         *decptr = '.'; /* ignore locale, force conversion by plain atof() */
+        errno = 0; /* successful calls do not do this */
         *doubledata = atof(numbuf);
-        if(errno!=ERANGE && errno!=EINVAL) {
+        if((errno!=ERANGE && errno!=EINVAL) ||
+         (*doubledata > -1.0 && *doubledata < 1.0)) { /* tiny, not too big */
           type = WG_DOUBLETYPE;
-        } else {
-          errno = 0; /* Under Win32, successful calls don't do this? */
         }
         *decptr = tmp; /* conversion might have failed, restore string */
       } else if(!decsep) {
+        errno = 0;
         *intdata = atol(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_INTTYPE;
-        } else {
-          errno = 0;
         }
       }
     }
-- 
2.43.0


From b5a7889c35edebc942c2722acfe19e777c0c2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:26 +0000
Subject: [PATCH 54/84] fix: free the values of a CSV row that could not be
 stored

They stayed in the database without an owner when the record could not
be created or the file ended inside a quoted field.
---
 Db/dbutil.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index a3d97bd..a6dbd03 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -935,6 +935,9 @@ static gint fread_csv(void *db, FILE *f) {
     }
   }
 
+  /* values of a row that was not stored have no owner */
+  while(reclen)
+    wg_free_encoded(db, encdata[--reclen]);
   free(encdata);
   free(strbuf);
   return err;
-- 
2.43.0


From 0ea27e7fcbcd1f4270050246c28e063fd003f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 55/84] fix: store JSON null values instead of dropping them

There was no parser callback for null, so null elements of arrays and
null members of objects disappeared without an error. They are stored
as NULL fields now, and printed as null again.
---
 Db/dbjson.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index b80c020..c128c01 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -122,6 +122,7 @@ static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
 static int object_end_cb(void* cb_ctx);
+static int elem_null_cb(void* cb_ctx);
 static int elem_integer_cb(void* cb_ctx, long long intval);
 static int elem_double_cb(void* cb_ctx, double doubleval);
 static int object_key_cb(void* cb_ctx, const unsigned char * strval,
@@ -153,7 +154,7 @@ yajl_callbacks validate_cb = {
 };
 
 yajl_callbacks input_cb = {
-    NULL,
+    elem_null_cb,
     NULL,
     elem_integer_cb,
     elem_double_cb,
@@ -638,6 +639,12 @@ static int object_end_cb(void* cb_ctx)
   return 1;
 }
 
+static int elem_null_cb(void* cb_ctx)
+{
+  return add_literal((parser_context *) cb_ctx, wg_encode_null(
+    ((parser_context *) cb_ctx)->db, 0));
+}
+
 static int elem_integer_cb(void* cb_ctx, long long intval)
 {
 /*  int i;*/
@@ -843,6 +850,10 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
         return show_json_error(db, "Formatter failure");
       }
     }
+  } else if(type == WG_NULLTYPE) {
+    if(yajl_gen_null(*g) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else {
     /* other literal value */
     size_t len;
-- 
2.43.0


From 01e3805191ffa9d3e9cbd76434e1091883fb64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 56/84] fix: do not cut long JSON object keys

The parser kept only the first 79 bytes of a key, so long keys were
stored truncated (possibly in the middle of a character), and different
keys could become the same.
---
 Db/dbjson.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index c128c01..1ba51d3 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -92,7 +92,7 @@ typedef struct {
   stack_entry_t type;
   stack_entry_elem *head;
   stack_entry_elem *tail;
-  char last_key[80];
+  char *last_key;
   int size;
 } stack_entry;
 
@@ -419,6 +419,18 @@ static gint run_json_parser(void *db, const char *buf,
 
 done:
   if(hand) yajl_free(hand);
+  /* free whatever a failed parse left on the stack */
+  for(; ctx.stack_ptr >= 0; ctx.stack_ptr--) {
+    if(ctx.stack_ptr < MAX_DEPTH) {
+      stack_entry *e = &ctx.stack[ctx.stack_ptr];
+      while(e->head) {
+        stack_entry_elem *tmp = e->head;
+        e->head = e->head->next;
+        free(tmp);
+      }
+      free(e->last_key);
+    }
+  }
   return result;
 }
 
@@ -452,6 +464,7 @@ static int push(parser_context *ctx, stack_entry_t type)
   e->type = type;
   e->head = NULL;
   e->tail = NULL;
+  e->last_key = NULL;
   return 1;
 }
 
@@ -511,6 +524,8 @@ static int pop(parser_context *ctx)
   }
   e->tail = NULL;
   e->size = 0;
+  free(e->last_key);
+  e->last_key = NULL;
 
   /* is it an element of something? */
   if(!istoplevel && rec && ret) {
@@ -559,9 +574,9 @@ static int add_key(parser_context *ctx, char *key)
     return 0; /* paranoia */
 
   e = &ctx->stack[ctx->stack_ptr];
-  strncpy(e->last_key, key, 80);
-  e->last_key[79] = '\0';
-  return 1;
+  free(e->last_key);
+  e->last_key = strdup(key);
+  return e->last_key ? 1 : 0;
 }
 
 /**
-- 
2.43.0


From a9fe1d5d88d67158d8423c98fdbb680075fceabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 57/84] fix: refuse JSON strings and keys that contain a NUL
 character

A string with \\u0000 in it was stored cut at that character. The
database cannot hold such a string, so the text is refused, also by
the check that runs before anything is stored.
---
 Db/dbjson.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 1ba51d3..a1f1664 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -118,6 +118,8 @@ static gint run_json_parser(void *db, const char *buf,
   yajl_callbacks *cb, int isparam, int isdocument, void **document);
 static int check_push_cb(void* cb_ctx);
 static int check_pop_cb(void* cb_ctx);
+static int check_string_cb(void* cb_ctx, const unsigned char * strval,
+                           size_t strl);
 static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
@@ -145,9 +147,9 @@ yajl_callbacks validate_cb = {
     NULL,
     NULL,
     NULL,
-    NULL,
+    check_string_cb,
     check_push_cb,
-    NULL,
+    check_string_cb,
     check_pop_cb,
     check_push_cb,
     check_pop_cb
@@ -451,6 +453,16 @@ static int check_pop_cb(void* cb_ctx)
   return 1;
 }
 
+/**
+ * Strings in the database end with a NUL byte, so a string
+ * that contains one cannot be stored.
+ */
+static int check_string_cb(void* cb_ctx, const unsigned char * strval,
+                           size_t strl)
+{
+  return memchr(strval, 0, strl) ? 0 : 1;
+}
+
 /**
  * Push an object or an array on the stack.
  */
@@ -696,7 +708,10 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
 /*  int i;*/
   int res = 1;
   parser_context *ctx = (parser_context *) cb_ctx;
-  char *buf = malloc(strl + 1);
+  char *buf;
+  if(!check_string_cb(NULL, strval, strl))
+    return 0;
+  buf = malloc(strl + 1);
   if(!buf)
     return 0;
   strncpy(buf, (char *) strval, strl);
@@ -718,7 +733,10 @@ static int elem_string_cb(void* cb_ctx, const unsigned char * strval,
   int res = 1;
   gint val;
   parser_context *ctx = (parser_context *) cb_ctx;
-  char *buf = malloc(strl + 1);
+  char *buf;
+  if(!check_string_cb(NULL, strval, strl))
+    return 0;
+  buf = malloc(strl + 1);
   if(!buf)
     return 0;
   strncpy(buf, (char *) strval, strl);
-- 
2.43.0


From a8be4eb6e700473e36c3dc7d913762577ea9c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 58/84] fix: let the JSON syntax check refuse numbers out of
 range

Without number callbacks the validating pass did not notice numbers that
overflow, so wg_check_json() accepted them and wg_parse_json_file() found
the error only after it had stored a part of the file.
---
 Db/dbjson.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index a1f1664..7787414 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -118,6 +118,8 @@ static gint run_json_parser(void *db, const char *buf,
   yajl_callbacks *cb, int isparam, int isdocument, void **document);
 static int check_push_cb(void* cb_ctx);
 static int check_pop_cb(void* cb_ctx);
+static int check_integer_cb(void* cb_ctx, long long intval);
+static int check_double_cb(void* cb_ctx, double doubleval);
 static int check_string_cb(void* cb_ctx, const unsigned char * strval,
                            size_t strl);
 static int array_begin_cb(void* cb_ctx);
@@ -144,8 +146,8 @@ static gint show_json_error_byte(void *db, const char *errmsg, int byte);
 yajl_callbacks validate_cb = {
     NULL,
     NULL,
-    NULL,
-    NULL,
+    check_integer_cb,
+    check_double_cb,
     NULL,
     check_string_cb,
     check_push_cb,
@@ -453,6 +455,19 @@ static int check_pop_cb(void* cb_ctx)
   return 1;
 }
 
+/**
+ * The parser only checks the range of numbers that it has a callback for.
+ */
+static int check_integer_cb(void* cb_ctx, long long intval)
+{
+  return 1;
+}
+
+static int check_double_cb(void* cb_ctx, double doubleval)
+{
+  return 1;
+}
+
 /**
  * Strings in the database end with a NUL byte, so a string
  * that contains one cannot be stored.
-- 
2.43.0


From e9bab988b0966bc8086deb09b670e26c8097c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 59/84] fix: allow the same JSON nesting depth when checking
 and storing

The syntax check refused texts nested MAX_DEPTH levels deep that the
document parser accepts and stores.
---
 Db/dbjson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 7787414..94f9924 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -442,7 +442,7 @@ static int check_push_cb(void* cb_ctx)
 {
   int *depth = (int *) cb_ctx;
   if(*depth == -1) *depth = 0; /* hack: something was pushed */
-  if(++(*depth) >= MAX_DEPTH) {
+  if(++(*depth) > MAX_DEPTH) {
     return 0;
   }
   return 1;
-- 
2.43.0


From 3ed12ed87e5eca10f7a9ce05c0eefdcf83f41b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 60/84] fix: parse JSON files whose size is a multiple of the
 chunk size

When the end of the file was found by a read that returned nothing,
wg_parse_json_file() returned success without storing the document (and
an empty file also counted as success).
---
 Db/dbjson.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 94f9924..8affd2f 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -225,8 +225,9 @@ gint wg_parse_json_file(void *db, const char *filename) {
       if(!feof(f)) {
         show_json_error_byte(db, "Read error", count);
         result = -1;
+        goto done;
       }
-      goto done;
+      break;
     }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
-- 
2.43.0


From db43158508f7272896015a59ceac86e1829b946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 61/84] fix: print JSON numbers with their full precision

Doubles were printed with 6 decimals and cut after 78 characters, so a
printed document could contain a different number (1e-7 became 0, 1e300
lost most of its digits).
---
 Db/dbjson.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 8affd2f..b5d9cf6 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -907,7 +907,17 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
     /* other literal value */
     size_t len;
     char buf[80];
-    wg_snprint_value(db, enc, buf, 79);
+    if(type == WG_DOUBLETYPE) {
+      /* keep enough digits to read the same number back */
+      double d = wg_decode_double(db, enc);
+      snprintf(buf, 70, "%.15g", d);
+      if(strtod(buf, NULL) != d)
+        snprintf(buf, 70, "%.17g", d);
+      if(strspn(buf, "-0123456789") == strlen(buf))
+        strcat(buf, ".0"); /* should not look like an integer */
+    } else {
+      wg_snprint_value(db, enc, buf, 79);
+    }
     len = strlen(buf);
     if(type == WG_INTTYPE || type == WG_DOUBLETYPE ||\
       type == WG_FIXPOINTTYPE) {
-- 
2.43.0


From ca74bb7efe1f7382bdb9986a2f6615afba84969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:40 +0000
Subject: [PATCH 62/84] fix: find, query and delete documents with deeply
 nested objects

Each nested object takes two levels of records (the pair and the value),
but the depth limits counted one, so documents that the parser accepts
could not be found from their inner records, made document queries fail
and were left half deleted.
---
 Db/dbquery.c  | 2 +-
 Db/dbschema.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index a8a910d..d06d57e 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1964,7 +1964,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
           rec, &arglist[i], next_set, 99);
 #else
         gint rc = check_and_merge_recursively(db,
-          rec, &arglist[i], next_set, WG_COMPARE_REC_DEPTH);
+          rec, &arglist[i], next_set, 2*WG_COMPARE_REC_DEPTH);
 #endif
         IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
       }
diff --git a/Db/dbschema.c b/Db/dbschema.c
index b0dd6c1..90b3ecd 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -175,7 +175,8 @@ void *wg_find_document(void *db, void *rec) {
   show_schema_error(db, "Backlinks are required to find complete documents");
   return NULL;
 #else
-  return find_document_recursive(db, (gint *) rec, WG_COMPARE_REC_DEPTH-1);
+  /* objects take two levels of records: the key-value pair and the value */
+  return find_document_recursive(db, (gint *) rec, 2*WG_COMPARE_REC_DEPTH-1);
 #endif
 }
 
@@ -230,7 +231,7 @@ gint wg_delete_document(void *db, void *document) {
 #ifndef USE_BACKLINKING
   return delete_record_recursive(db, document, 99);
 #else
-  return delete_record_recursive(db, document, WG_COMPARE_REC_DEPTH);
+  return delete_record_recursive(db, document, 2*WG_COMPARE_REC_DEPTH);
 #endif
 }
 
-- 
2.43.0


From aa37bd75a753abd2114311acf1a7c0fda9fd5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:20 +0000
Subject: [PATCH 63/84] fix: ignore records outside documents in a document
 query

A matching key-value pair of a JSON fragment, or a plain row that
happened to have matching fields, made the whole query fail.
---
 Db/dbquery.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index d06d57e..45dfc02 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1602,13 +1602,13 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
  */
 #define ADD_DOC_TO_RESULTSET(db, rec, ns, rc) \
   void *doc = wg_find_document(db, rec); \
-  if(doc) { \
+  if(!doc) { \
+    rc = 0; /* does not belong to any document */ \
+  } else { \
     if(!append_resultset(db, ns, ptrtooffset(db, doc))) \
       rc = 1; \
     else \
       rc = -1; \
-  } else { \
-    rc = show_query_error(db, "Failed to retrieve the document"); \
   }
 
 #define IF_ERR_CLEAN_UP(db, cr, ns, al, rc) \
-- 
2.43.0


From 2f40528739fe1d29df3ff7a85ab2b415bd8850d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:20 +0000
Subject: [PATCH 64/84] fix: do not take array elements for key-value pairs in
 a query

A document with an array like ["a", "key", "value"] in it was returned
by a document query for {"key": "value"}.
---
 Db/dbquery.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 45dfc02..ea8340c 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1599,9 +1599,14 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
  * 1 adding the document succeeded
  * (0 is reserved for using this macro in a recursive function
  * to differentiate between matches and non-matches)
+ *
+ * Arrays and objects are not key-value pairs, even if they have
+ * matching elements in these positions.
  */
 #define ADD_DOC_TO_RESULTSET(db, rec, ns, rc) \
-  void *doc = wg_find_document(db, rec); \
+  void *doc = NULL; \
+  if(!is_schema_array(rec) && !is_schema_object(rec)) \
+    doc = wg_find_document(db, rec); \
   if(!doc) { \
     rc = 0; /* does not belong to any document */ \
   } else { \
-- 
2.43.0


From b8e140e6a1d214943ff8dd62697096a468a5c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:20 +0000
Subject: [PATCH 65/84] fix: refuse to delete a document before changing
 anything

When a record inside the document was referenced from elsewhere (or the
document itself was), wg_delete_document() cleared and deleted a part of
the document before it failed.
---
 Db/dbschema.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 90b3ecd..6b1691a 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -54,6 +54,9 @@ extern "C" {
 #ifdef USE_BACKLINKING
 static void *find_document_recursive(void *db, gint *rec, int depth);
 #endif
+#ifdef USE_BACKLINKING
+static gint check_deletable_recursive(void *db, void *rec, int depth);
+#endif
 static gint delete_record_recursive(void *db, void *rec, int depth);
 static gint show_schema_error(void *db, char *errmsg);
 
@@ -231,10 +234,47 @@ gint wg_delete_document(void *db, void *document) {
 #ifndef USE_BACKLINKING
   return delete_record_recursive(db, document, 99);
 #else
+  if(*((gint *) document + RECORD_BACKLINKS_POS)) {
+    return show_schema_error(db, "wg_delete_document: document is referenced");
+  }
+  if(check_deletable_recursive(db, document, 2*WG_COMPARE_REC_DEPTH))
+    return -1;
   return delete_record_recursive(db, document, 2*WG_COMPARE_REC_DEPTH);
 #endif
 }
 
+#ifdef USE_BACKLINKING
+/*
+ * Check that a record and all the records it points to can be deleted,
+ * that is, the inner records are not referenced from elsewhere.
+ * returns 0 if they can
+ * returns -1 if not
+ */
+static gint check_deletable_recursive(void *db, void *rec, int depth) {
+  gint i, reclen;
+  if(depth <= 0) {
+    return show_schema_error(db, "deleting record: recursion too deep");
+  }
+
+  reclen = wg_get_record_len(db, rec);
+  for(i=0; i<reclen; i++) {
+    gint enc = wg_get_field(db, rec, i);
+    if(wg_get_encoded_type(db, enc) == WG_RECORDTYPE) {
+      gint *child = (gint *) wg_decode_record(db, enc);
+      gint backlink_list = *(child + RECORD_BACKLINKS_POS);
+      if(!backlink_list ||
+        ((gcell *) offsettoptr(db, backlink_list))->cdr) {
+        return show_schema_error(db,
+          "deleting record: referenced from elsewhere");
+      }
+      if(check_deletable_recursive(db, child, depth-1))
+        return -1;
+    }
+  }
+  return 0;
+}
+#endif
+
 /*
  * Delete a record and all the records it points to.
  * This is safe to call on JSON documents.
-- 
2.43.0


From 56c99df713078a9c2f7573aab8abec90c91b88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:10 +0000
Subject: [PATCH 66/84] fix: refuse a JSON text that ends inside a string or
 comment after the document

---
 json/yajl_all.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index d7b3a56..646dfbd 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1693,8 +1693,19 @@ yajl_do_finish(yajl_handle hand)
         case yajl_state_parse_error:
         case yajl_state_lexical_error:
             return yajl_status_error;
-        case yajl_state_got_value:
         case yajl_state_parse_complete:
+            /* a string or a comment that begins after the value may not
+             * end with the text, unless it is a comment up to the end of
+             * the line. */
+            if (hand->lexer->bufInUse && yajl_buf_len(hand->lexer->buf) &&
+                strncmp((const char *) yajl_buf_data(hand->lexer->buf),
+                        "//", 2)) {
+                yajl_bs_set(hand->stateStack, yajl_state_parse_error);
+                hand->parseError = "premature EOF";
+                return yajl_status_error;
+            }
+            return yajl_status_ok;
+        case yajl_state_got_value:
             return yajl_status_ok;
         default:
             if (!(hand->flags & yajl_allow_partial_values))
-- 
2.43.0


From bde86ba2c3218b894a5b2249f024ceed0c528ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 67/84] fix: refuse to create a database smaller than its
 header

---
 Db/dballoc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 96585e4..cabfa37 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -102,6 +102,11 @@ gint wg_init_db_memsegment(void* db, gint key, gint size) {
   gint free;
   gint i;
 
+  if(size<(gint) sizeof(db_memsegment_header)) {
+    show_dballoc_error_nr(db," segment is too small for the database header, size: ",size);
+    return -1;
+  }
+
   // set main global values for db
   dbh->mark=(gint32) MEMSEGMENT_MAGIC_INIT;
   dbh->version=(gint32) MEMSEGMENT_VERSION;
-- 
2.43.0


From 0cf9ca495ccdc497536468019858277e99a8b03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:31 +0000
Subject: [PATCH 68/84] fix: keep the list of indexes when there is no room for
 another one

---
 Db/dbindex.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 52212fa..5464ba3 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1735,15 +1735,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint cell = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(cell) {
+    gcell *listelem = (gcell *) offsettoptr(db, cell);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = cell;
   }
-  return *head;
+  return cell;
 }
 
 /** Delete from list
-- 
2.43.0


From 8c50ab3343eba18d03c3d4fea0ef5d9110f20891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 69/84] fix: free a long string when there is no room for its
 second part

---
 Db/dbdata.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 9457e5f..4b7bb69 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2721,6 +2721,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
       tmp=encode_unistr_nolog(db,extrastr,NULL,WG_STRTYPE);
       if (tmp==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
+        wg_free_object(db, &(dbmemsegh(db)->longstr_area_header), offset);
         return 0;
       }
       dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),tmp);
-- 
2.43.0


From 2ab03046641c434e1b5d38c1157f59c0c3a8ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 70/84] fix: refuse to store a hash index entry when there is
 no room for it

---
 Db/dbhash.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index fbf853c..e63fd0c 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -461,6 +461,13 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
    * hash string already
    */
   bucket = find_idxhash_bucket(db, data, length, &head_offset);
+
+  /* Allocate the list element first, nothing has been changed yet */
+  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    return -1;
+  }
+
   if(!bucket) {
     size_t i;
     gint lengints, lenrest;
@@ -474,6 +481,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
          &(dbh->indexhash_area_header),
         lengints + HASHIDX_HEADER_SIZE);
     if(!bucket) {
+      wg_free_listcell(db, rec_offset);
       return -1;
     }
 
@@ -497,7 +505,6 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
 
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
-  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From 6099e962bc29d2702619bfa8e96258571cb0b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:11 +0000
Subject: [PATCH 71/84] fix: refuse to store a record reference when there is
 no room for the backlink

---
 Db/dbdata.c | 62 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 10 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 4b7bb69..8eadc73 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -634,6 +634,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
   gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
+  gint new_offset = 0;          /** backlink for the new value */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -655,18 +656,40 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* Read the old encoded value */
+  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
+  fielddata=*fieldadr;
+
+#ifdef USE_BACKLINKING
+  /* Allocate the new backlink before anything is changed */
+#ifdef USE_CHILD_DB
+  if(fielddata != data && wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(fielddata != data && wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_offset = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_offset) {
+      show_data_error(db, "cannot allocate a backlink");
+      return -4; /* backlink error */
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_offset)
+        wg_free_listcell(db, new_offset);
+#endif
       return -6; /* journal error, cannot write */
+    }
   }
 #endif
 
-  /* Read the old encoded value */
-  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
-  fielddata=*fieldadr;
-
   /* Skip changes if the value does not change */
   if(fielddata == data) {
     return 0;
@@ -783,8 +806,6 @@ setfld_backlink_removed:
 #endif
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
     while(*next_offset)
@@ -844,6 +865,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_offset = 0;          /** backlink for the new value */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -873,11 +895,33 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_BACKLINKING
+  /* Allocate the new backlink before anything is changed */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_offset = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_offset) {
+      show_data_error(db, "cannot allocate a backlink");
+      return -4; /* backlink error */
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_offset)
+        wg_free_listcell(db, new_offset);
+#endif
       return -6; /* journal error, cannot write */
+    }
   }
 #endif
 
@@ -953,8 +997,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #endif
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
     gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
 
     while(*next_offset)
-- 
2.43.0


From a0b43861291df29654c0227f0f7076c7d3160844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:28 +0000
Subject: [PATCH 72/84] fix: refuse an index template when there is no room for
 it

---
 Db/dbindex.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 5464ba3..6852257 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1839,10 +1839,27 @@ nextelem:
     ilist = &ilistelem->cdr;
   }
 
+  /* Allocate the template header and insert it into the template list */
+  template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset)
+    return 0;
+  if(!insert_into_list(db, ilist, template_offset)) {
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
+    return 0;
+  }
+
   /* Create the new match record */
   rec = wg_create_raw_record(db, reclen);
-  if(!rec)
+  if(!rec) {
+    delete_from_list(db, ilist);
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
     return 0;
+  }
+  tmpl = (wg_index_template *) offsettoptr(db, template_offset);
+  tmpl->offset_matchrec = ptrtooffset(db, rec);
+  tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0; /* the caller counts its index */
+
   /* Mark it as non-data first, it should not be entered in indexes */
   meta = ((gint *) rec + RECORD_META_POS);
   *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
@@ -1857,17 +1874,6 @@ nextelem:
       return 0;
   }
 
-  /* Add new template header */
-  template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
-  tmpl = (wg_index_template *) offsettoptr(db, template_offset);
-  tmpl->offset_matchrec = ptrtooffset(db, rec);
-  tmpl->fixed_columns = fixed_columns;
-  tmpl->refcount = 0; /* the caller counts its index */
-
-  /* Insert it into the template list */
-  if(!insert_into_list(db, ilist, template_offset))
-    return 0;
-
   return template_offset;
 }
 
-- 
2.43.0


From ee563ad47f15cbab786cac55971b6250114c646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:09 +0000
Subject: [PATCH 73/84] fix: undo the creation of an index that there is no
 room for

---
 Db/dbhash.c  |  24 ++++++++
 Db/dbhash.h  |   1 +
 Db/dbindex.c | 153 +++++++++++++++++++++++++++++++++++++++++----------
 3 files changed, 148 insertions(+), 30 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index e63fd0c..fd03286 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -560,6 +560,30 @@ is_bucket_empty:
   return 0;
 }
 
+/*
+ * Remove all entries from the index hash and free their storage.
+ */
+void wg_idxhash_clear(void* db, db_hash_area_header *ha) {
+  gint i;
+
+  for(i=0; i<ha->arraylength; i++) {
+    gint head_offset = (ha->arraystart)+(sizeof(gint) * i);
+    gint bucket = dbfetch(db, head_offset);
+    while(bucket) {
+      gint next = dbfetch(db, bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint));
+      gint cell = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
+      while(cell) {
+        gint old = cell;
+        cell = ((gcell *) offsettoptr(db, old))->cdr;
+        wg_free_listcell(db, old);
+      }
+      wg_free_object(db, &(dbmemsegh(db)->indexhash_area_header), bucket);
+      bucket = next;
+    }
+    dbstore(db, head_offset, 0);
+  }
+}
+
 /*
  * Retrieve the list of matching offsets from the hash.
  *
diff --git a/Db/dbhash.h b/Db/dbhash.h
index c584038..50c5450 100644
--- a/Db/dbhash.h
+++ b/Db/dbhash.h
@@ -58,6 +58,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   char* data, gint length, gint offset);
 gint wg_idxhash_remove(void* db, db_hash_area_header *ha,
   char* data, gint length, gint offset);
+void wg_idxhash_clear(void* db, db_hash_area_header *ha);
 gint wg_idxhash_find(void* db, db_hash_area_header *ha,
   char* data, gint length);
 
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 6852257..78d2ba1 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -83,6 +83,10 @@ static gint drop_ttree_index(void *db, gint column);
 
 static gint insert_into_list(void *db, gint *head, gint value);
 static void delete_from_list(void *db, gint *head);
+static void discard_index(void *db, gint index_id);
+#ifdef USE_INDEX_TEMPLATE
+static void discard_index_template(void *db, gint template_offset);
+#endif
 #ifdef USE_INDEX_TEMPLATE
 static gint add_index_template(void *db, gint *matchrec, gint reclen);
 static gint find_index_template(void *db, gint *matchrec, gint reclen);
@@ -1383,6 +1387,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1413,7 +1419,10 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec)) {
+        drop_ttree_index(db, index_id);
+        return -1;
+      }
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1650,12 +1659,18 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec)) {
+            wg_idxhash_clear(db, HASHIDX_ARRAYP(hdr));
+            return -1;
+          }
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec)) {
+          wg_idxhash_clear(db, HASHIDX_ARRAYP(hdr));
+          return -1;
+        }
         rowsprocessed++;
       }
     }
@@ -1982,6 +1997,27 @@ static gint remove_index_template(void *db, gint template_offset) {
   return 0;
 }
 
+/** Remove a template of an index that could not be created
+ *
+ *  The caller still owns the values in the template.
+ */
+static void discard_index_template(void *db, gint template_offset) {
+  wg_index_template *tmpl = \
+    (wg_index_template *) offsettoptr(db, template_offset);
+  gint *rec = (gint *) offsettoptr(db, tmpl->offset_matchrec);
+  gint i, reclen = wg_get_record_len(db, rec);
+
+  for(i=0; i<reclen; i++) {
+    gint *dptr = rec + RECORD_HEADER_GINTS + i;
+    if(isptr(*dptr) && islongstr(*dptr)) {
+      --(*((gint *) offsettoptr(db,
+        decode_longstr_offset(*dptr)) + LONGSTR_REFCOUNT_POS));
+    }
+    *dptr = 0;
+  }
+  remove_index_template(db, template_offset);
+}
+
 /** Check if a record matches a template
  *
  * Returns 1 if they match
@@ -2232,16 +2268,13 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
+  if(!index_id) {
+#ifdef USE_INDEX_TEMPLATE
+    if(tmpl && !tmpl->refcount)
+      discard_index_template(db, template_offset);
+#endif
+    show_index_error(db, "no room for the index");
+    return -1;
   }
 
   /* Set up the header */
@@ -2253,27 +2286,19 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   }
   hdr->template_offset = template_offset;
 
-  /* create the actual index */
-  switch(hdr->type) {
-    case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
-      break;
-    case WG_INDEX_TYPE_HASH:
-    case WG_INDEX_TYPE_HASH_JSON:
-      if(create_hash_index(db, index_id))
-        return -1;
-      break;
-    case WG_INDEX_TYPE_TTREE_JSON:
-      /* Return an error, until proper implementation exists */
-    default:
-      show_index_error(db, "Invalid index type");
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id)) {
+      discard_index(db, index_id);
       return -1;
+    }
   }
 
   /* Add to master list */
   if(!insert_into_list(db,
-     &dbh->index_control_area_header.index_list ,index_id))
+     &dbh->index_control_area_header.index_list ,index_id)) {
+    discard_index(db, index_id);
     return -1;
+  }
 
 #ifdef USE_INDEX_TEMPLATE
   if(hdr->template_offset) {
@@ -2286,13 +2311,37 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
          */
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
-          index_id))
-          return 0;
+          index_id)) {
+          discard_index(db, index_id);
+          return -1;
+        }
       }
     }
   }
 #endif
 
+  /* create the actual index */
+  switch(hdr->type) {
+    case WG_INDEX_TYPE_TTREE:
+      if(create_ttree_index(db, index_id)) {
+        discard_index(db, index_id);
+        return -1;
+      }
+      break;
+    case WG_INDEX_TYPE_HASH:
+    case WG_INDEX_TYPE_HASH_JSON:
+      if(create_hash_index(db, index_id)) {
+        discard_index(db, index_id);
+        return -1;
+      }
+      break;
+    case WG_INDEX_TYPE_TTREE_JSON:
+      /* Return an error, until proper implementation exists */
+    default:
+      show_index_error(db, "Invalid index type");
+      return -1;
+  }
+
   /* increase index counter */
   dbh->index_control_area_header.number_of_indexes++;
 #ifdef USE_INDEX_TEMPLATE
@@ -2304,6 +2353,50 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 }
 
 
+/** Remove an index that could not be created
+ *
+ *  Removes the index from all the lists that it has been added to
+ *  so far and frees the header and the template, if no other index
+ *  uses it.
+ */
+static void discard_index(void *db, gint index_id) {
+  gint i, n = 0;
+  gint *ilist[2*(MAX_INDEXED_FIELDNR+1) + 1];
+  db_memsegment_header* dbh = dbmemsegh(db);
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
+
+  ilist[n++] = &dbh->index_control_area_header.index_list;
+  for(i=0; i<=MAX_INDEXED_FIELDNR; i++) {
+    ilist[n++] = &dbh->index_control_area_header.index_table[i];
+#ifdef USE_INDEX_TEMPLATE
+    ilist[n++] = &dbh->index_control_area_header.index_template_table[i];
+#endif
+  }
+
+  for(i=0; i<n; i++) {
+    while(*(ilist[i])) {
+      gcell *ilistelem = (gcell *) offsettoptr(db, *(ilist[i]));
+      if(ilistelem->car == index_id) {
+        delete_from_list(db, ilist[i]);
+        break;
+      }
+      ilist[i] = &ilistelem->cdr;
+    }
+  }
+
+#ifdef USE_INDEX_TEMPLATE
+  if(hdr->template_offset) {
+    wg_index_template *tmpl = \
+      (wg_index_template *) offsettoptr(db, hdr->template_offset);
+    if(!tmpl->refcount)
+      discard_index_template(db, hdr->template_offset);
+  }
+#endif
+
+  wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
+  show_index_error(db, "no room for the index");
+}
+
 /** Drop index by index id
 *
 *  returns:
-- 
2.43.0


From a757b490707a67091c48a9969be8fa92ab9f5e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:10 +0000
Subject: [PATCH 74/84] fix: leave a T-tree as it was when there is no room for
 a new node

---
 Db/dbindex.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 78d2ba1..e6def8b 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -75,6 +75,7 @@ static gint db_find_bounding_tnode(void *db, gint rootoffset, gint key,
 static int db_which_branch_causes_overweight(void *db, struct wg_tnode *root);
 static int db_rotate_ttree(void *db, gint index_id, struct wg_tnode *root,
   int overw);
+static gint reserve_objects(void *db, void *area_header, gint count);
 static gint ttree_add_row(void *db, gint index_id, void *rec);
 static gint ttree_remove_row(void *db, gint index_id, void * rec);
 
@@ -451,6 +452,10 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
 #endif
   column = hdr->rec_field_index[0]; /* always one column for T-tree */
 
+  /* A new node may be needed after the tree has been changed already */
+  if(reserve_objects(db, &dbh->tnode_area_header, 1))
+    return -1;
+
   //extract real value from the row (rec)
   newvalue = wg_get_field(db, rec, column);
 
@@ -1740,6 +1745,36 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
 }
 
 
+/* ----------------- Room for index entries -------------- */
+
+/** Check that the given number of objects can be allocated
+ *  from a fixed length area (extending it, if needed).
+ *
+ * returns:
+ * 0 - on success
+ * -1 - no room
+ */
+static gint reserve_objects(void *db, void *area_header, gint count) {
+  gint list = 0, err = 0;
+
+  while(count > 0) {
+    gint obj = wg_alloc_fixlen_object(db, area_header);
+    if(!obj) {
+      err = -1;
+      break;
+    }
+    dbstore(db, obj, list);
+    list = obj;
+    count--;
+  }
+  while(list) {
+    gint next = dbfetch(db, list);
+    wg_free_fixlen_object(db, (db_area_header *) area_header, list);
+    list = next;
+  }
+  return err;
+}
+
 /* ----------------- Index template functions -------------- */
 
 /** Insert into list
-- 
2.43.0


From 64a9841ae74defb79d473a1b2b2ce45fa1029866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:45 +0000
Subject: [PATCH 75/84] fix: do not leave a record behind that there is no room
 for in the indexes

wg_create_record() returned NULL, but the record existed and was in some of
the indexes.
---
 Db/dbdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 8eadc73..072cc0c 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -121,8 +121,10 @@ void* wg_create_record(void* db, wg_int length) {
   void *rec = wg_create_raw_record(db, length);
   /* Index all the created NULL fields to ensure index consistency */
   if(rec) {
-    if(wg_index_add_rec(db, rec) < -1)
+    if(wg_index_add_rec(db, rec) < -1) {
+      wg_delete_record(db, rec);
       return NULL; /* index error */
+    }
   }
   return rec;
 }
-- 
2.43.0


From 8d2161e57c9f7ca6fdabb80fa09d11b509660b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:45 +0000
Subject: [PATCH 76/84] fix: refuse to change a field when there is no room for
 its index entries

wg_set_field() and wg_set_new_field() removed the old index entries and
only found out while adding the new ones that there is no room. The
record was then missing from the index. Check first.
---
 Db/dbdata.c  |  20 ++++++
 Db/dbindex.c | 199 +++++++++++++++++++++++++++++++++++++++++++++++++++
 Db/dbindex.h |   1 +
 3 files changed, 220 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 072cc0c..dd4af39 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -679,6 +679,16 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* The indexes cannot be left incomplete */
+  if(fielddata != data && wg_index_reserve(db, record, fieldnr, data)) {
+#ifdef USE_BACKLINKING
+    if(new_offset)
+      wg_free_listcell(db, new_offset);
+#endif
+    show_data_error(db, "no room for index entries");
+    return -3; /* index error */
+  }
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
@@ -914,6 +924,16 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* The indexes cannot be left incomplete */
+  if(wg_index_reserve(db, record, fieldnr, data)) {
+#ifdef USE_BACKLINKING
+    if(new_offset)
+      wg_free_listcell(db, new_offset);
+#endif
+    show_data_error(db, "no room for index entries");
+    return -3; /* index error */
+  }
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
diff --git a/Db/dbindex.c b/Db/dbindex.c
index e6def8b..1ff2415 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -65,6 +65,15 @@ extern "C" {
 #define HASHIDX_OP_STORE 1
 #define HASHIDX_OP_REMOVE 2
 #define HASHIDX_OP_FIND 3
+#define HASHIDX_OP_RESERVE 4
+
+/** room that a set of index entries needs */
+typedef struct {
+  gint nodes;   /** T-tree nodes */
+  gint cells;   /** list cells */
+  gint gints;   /** storage for hash keys */
+  gint extra;   /** bytes to add to the length of each hash key */
+} index_room;
 
 /* ======= Private protos ================ */
 
@@ -76,6 +85,12 @@ static int db_which_branch_causes_overweight(void *db, struct wg_tnode *root);
 static int db_rotate_ttree(void *db, gint index_id, struct wg_tnode *root,
   int overw);
 static gint reserve_objects(void *db, void *area_header, gint count);
+static void count_index_rows(void *db, void *rec, gint column, gint subst,
+  gint data, index_room *room);
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+static gint count_backlink_rows(void *db, void *rec, index_room *room);
+static int compare_offsets(const void *a, const void *b);
+#endif
 static gint ttree_add_row(void *db, gint index_id, void *rec);
 static gint ttree_remove_row(void *db, gint index_id, void * rec);
 
@@ -1581,6 +1596,12 @@ static gint hash_recurse(void *db, wg_index_header *hdr, char *prefix,
     } else if(op == HASHIDX_OP_REMOVE) {
       return wg_idxhash_remove(db, HASHIDX_ARRAYP(hdr),
         prefix, prefixlen, ptrtooffset(db, rec));
+    } else if(op == HASHIDX_OP_RESERVE) {
+      index_room *room = (index_room *) rec;
+      room->cells++;
+      room->gints += (prefixlen + (expand ? room->extra : 0)) / sizeof(gint) +
+        1 + HASHIDX_HEADER_SIZE + MIN_VARLENOBJ_SIZE / sizeof(gint);
+      return 0;
     } else {
       /* assume HASHIDX_OP_FIND */
       return wg_idxhash_find(db, HASHIDX_ARRAYP(hdr), prefix, prefixlen);
@@ -1775,6 +1796,184 @@ static gint reserve_objects(void *db, void *area_header, gint count) {
   return err;
 }
 
+/** Add up what the index entries of a record that depend on
+ *  a column need. If subst is nonzero, data is used as the
+ *  value of the column.
+ */
+static void count_index_rows(void *db, void *rec, gint column, gint subst,
+  gint data, index_room *room) {
+  gint i, k, ilist;
+  gint values[MAX_INDEX_FIELDS];
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint reclen = wg_get_record_len(db, rec);
+
+  for(k=0; k<2; k++) {
+#ifdef USE_INDEX_TEMPLATE
+    ilist = (k ? dbh->index_control_area_header.index_template_table[column] :
+      dbh->index_control_area_header.index_table[column]);
+#else
+    ilist = (k ? 0 : dbh->index_control_area_header.index_table[column]);
+#endif
+    while(ilist) {
+      gcell *ilistelem = (gcell *) offsettoptr(db, ilist);
+      if(ilistelem->car) {
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        if(reclen > hdr->rec_field_index[hdr->fields - 1]) {
+          if(hdr->type == WG_INDEX_TYPE_HASH || \
+            hdr->type == WG_INDEX_TYPE_HASH_JSON) {
+            for(i=0; i<hdr->fields; i++) {
+              values[i] = (subst && hdr->rec_field_index[i] == column ? \
+                data : wg_get_field(db, rec, hdr->rec_field_index[i]));
+            }
+            hash_recurse(db, hdr, NULL, 0, values, hdr->fields, room,
+              HASHIDX_OP_RESERVE, (hdr->type == WG_INDEX_TYPE_HASH_JSON));
+          } else {
+            room->nodes++;
+          }
+        }
+      }
+      ilist = ilistelem->cdr;
+    }
+  }
+}
+
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+
+static int compare_offsets(const void *a, const void *b) {
+  gint x = *((const gint *) a), y = *((const gint *) b);
+  return (x < y ? -1 : (x > y ? 1 : 0));
+}
+
+/** Add up what the index entries of the records that refer to a
+ *  record need, up to the depth where values of records are compared.
+ *  The records are visited level by level, each of them once.
+ *
+ * returns:
+ * 0 - on success
+ * -1 - error
+ */
+static gint count_backlink_rows(void *db, void *rec, index_room *room) {
+  gint depth, i, err = 0;
+  gint size = 16;   /* allocated size of the array */
+  gint start = 0;   /* records of this level are in positions start.. */
+  gint count = 1;   /* ..count-1, the ones before have been visited */
+  gint *seen = (gint *) malloc(size * sizeof(gint));
+
+  if(!seen)
+    return -1;
+  seen[0] = ptrtooffset(db, rec);
+
+  for(depth=0; depth<WG_COMPARE_REC_DEPTH && start<count && !err; depth++) {
+    gint last, next = count;
+
+    for(i=start; i<count && !err; i++) {
+      void *child = offsettoptr(db, seen[i]);
+      gint value = wg_encode_record(db, child);
+      gint cell = *((gint *) child + RECORD_BACKLINKS_POS), prev = 0;
+
+      while(cell) {
+        gint parent = ((gcell *) offsettoptr(db, cell))->car;
+        gint *prec = (gint *) offsettoptr(db, parent);
+
+        /* several links from one record often follow each other */
+        if(parent == prev) {
+          cell = ((gcell *) offsettoptr(db, cell))->cdr;
+          continue;
+        }
+        prev = parent;
+        if(!is_special_record(prec)) {
+          gint col, length = wg_get_record_len(db, prec);
+          if(length > MAX_INDEXED_FIELDNR)
+            length = MAX_INDEXED_FIELDNR + 1;
+          for(col=0; col<length; col++) {
+            if(*(prec + RECORD_HEADER_GINTS + col) == value)
+              count_index_rows(db, prec, col, 0, 0, room);
+          }
+        }
+
+        if(next >= size) {
+          gint *tmp = (gint *) realloc(seen, 2 * size * sizeof(gint));
+          if(!tmp) {
+            err = -1;
+            break;
+          }
+          seen = tmp;
+          size *= 2;
+        }
+        seen[next++] = parent;
+        cell = ((gcell *) offsettoptr(db, cell))->cdr;
+      }
+    }
+
+    /* keep the new ones for the next level */
+    if(!err) {
+      qsort(seen, count, sizeof(gint), compare_offsets);
+      qsort(seen + count, next - count, sizeof(gint), compare_offsets);
+      last = 0;
+      start = count;
+      for(i=start; i<next; i++) {
+        gint off = seen[i];
+        if(off != last && !bsearch(&off, seen, start, sizeof(gint),
+          compare_offsets))
+          seen[count++] = off;
+        last = off;
+      }
+    }
+  }
+  free(seen);
+  return err;
+}
+
+#endif
+
+/** Check that there is room for the index entries that storing
+ *  data in a field of the record causes to be made. Nothing is
+ *  allocated, but once this check has succeeded, the indexes can
+ *  be updated.
+ *
+ * returns:
+ * 0 - on success
+ * -1 - no room
+ */
+gint wg_index_reserve(void *db, void *rec, gint column, gint data) {
+  index_room room;
+  db_memsegment_header* dbh = dbmemsegh(db);
+
+  if(!dbh->index_control_area_header.number_of_indexes)
+    return 0;
+
+  room.nodes = room.cells = room.gints = room.extra = 0;
+  if(!is_special_record(rec) && column <= MAX_INDEXED_FIELDNR)
+    count_index_rows(db, rec, column, 1, data, &room);
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  if(*((gint *) rec + RECORD_BACKLINKS_POS)) {
+    char *bytes;
+    gint len = wg_decode_for_hashing(db, data, &bytes);
+    if(len > 0) {
+      /* The new data may become a part of the key of another record */
+      room.extra = len * MAX_INDEX_FIELDS;
+      free(bytes);
+    }
+    if(count_backlink_rows(db, rec, &room))
+      return -1;
+  }
+#endif
+
+  if(room.nodes && reserve_objects(db, &dbh->tnode_area_header, room.nodes))
+    return -1;
+  if(room.cells) {
+    gint chunk;
+    if(reserve_objects(db, &dbh->listcell_area_header, room.cells))
+      return -1;
+    chunk = wg_alloc_gints(db, &dbh->indexhash_area_header, room.gints);
+    if(!chunk)
+      return -1;
+    wg_free_object(db, &dbh->indexhash_area_header, chunk);
+  }
+  return 0;
+}
+
 /* ----------------- Index template functions -------------- */
 
 /** Insert into list
diff --git a/Db/dbindex.h b/Db/dbindex.h
index cbb46f2..1644049 100644
--- a/Db/dbindex.h
+++ b/Db/dbindex.h
@@ -142,6 +142,7 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count);
 gint wg_match_template(void *db, wg_index_template *tmpl, void *rec);
 #endif
 
+gint wg_index_reserve(void *db, void *rec, gint column, gint data);
 gint wg_index_add_field(void *db, void *rec, gint column);
 gint wg_index_add_rec(void *db, void *rec);
 gint wg_index_del_field(void *db, void *rec, gint column);
-- 
2.43.0


From a30806f68e6e1a6d9b88aa2bb85fa2a8a5b68078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:09 +0000
Subject: [PATCH 77/84] fix: do not leave an incomplete triple, array or object
 behind on an error

The functions returned NULL, but the record they had made stayed in the
database.
---
 Db/dbschema.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 6b1691a..b8d184b 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -85,15 +85,16 @@ void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
 #endif
       *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
+      wg_delete_record(db, rec);
       return NULL; /* index error */
     }
 
-    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET, subj))
-      return NULL;
-    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 1, prop))
-      return NULL;
-    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 2, ob))
+    if(wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET, subj) ||
+      wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 1, prop) ||
+      wg_set_field(db, rec, WG_SCHEMA_TRIPLE_OFFSET + 2, ob)) {
+      wg_delete_record(db, rec);
       return NULL;
+    }
   }
   return rec;
 }
@@ -126,6 +127,7 @@ void *wg_create_array(void *db, gint size, gint isdocument, gint isparam) {
     *metap = meta;
     if(!isparam) {
       if(wg_index_add_rec(db, rec) < -1) {
+        wg_delete_record(db, rec);
         return NULL; /* index error */
       }
     }
@@ -161,6 +163,7 @@ void *wg_create_object(void *db, gint size, gint isdocument, gint isparam) {
     *metap = meta;
     if(!isparam) {
       if(wg_index_add_rec(db, rec) < -1) {
+        wg_delete_record(db, rec);
         return NULL; /* index error */
       }
     }
-- 
2.43.0


From 1ca939b8037fc71f7667558fe83f37edf01bd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:20 +0000
Subject: [PATCH 78/84] fix: detach from a database that is refused

---
 Db/dbmem.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 453efe9..37ecf55 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -98,6 +98,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -225,6 +226,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -238,6 +240,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -253,6 +256,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -264,6 +268,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -321,6 +326,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
       if(err) {
         show_memory_error("Database initialization failed");
+        detach_shared_memory(shm);
         free_shared_memory(key);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
-- 
2.43.0


From 667fde03d2798698ed9f893b5931cc03b7002e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:40 +0000
Subject: [PATCH 79/84] fix: refuse to register more external databases than
 there is room for

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index cabfa37..9d74c2d 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1426,7 +1426,7 @@ gint wg_register_external_db(void *db, void *extdb) {
       "Database has indexes, external references not allowed");
   }
   if(dbh->extdbs.count >= MAX_EXTDB) {
-    show_dballoc_error(db, "cannot register external database");
+    return show_dballoc_error(db, "cannot register external database");
   } else {
     dbh->extdbs.offset[dbh->extdbs.count] = ptrtooffset(db, dbmemsegh(extdb));
     dbh->extdbs.size[dbh->extdbs.count++] = \
-- 
2.43.0


From 38a4e6954d991b4277caed424abca3f89845828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:52 +0000
Subject: [PATCH 80/84] fix: refuse to dump a database that refers to other
 databases

---
 Db/dbdump.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 3fae453..2ce5cb8 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -104,6 +104,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
     show_dump_error(db, "Database contains external references");
+    return -1;
   }
 #endif
 
-- 
2.43.0


From 5fd722b0f57826429229ff932a28ccb144be5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:01 +0000
Subject: [PATCH 81/84] fix: decode the second part of a string of an external
 database

---
 Db/dbdata.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index dd4af39..5420102 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2868,6 +2868,14 @@ char* wg_decode_unistr_lang(void* db, gint data, gint type) {
     fldptr=((gint*)objptr)+LONGSTR_EXTRASTR_POS;
     fldval=*fldptr;
     if (fldval==0) return NULL;
+#ifdef USE_CHILD_DB
+    {
+      /* the extra string of an external string is relative to its database */
+      void *owner = get_ptr_owner(db, data);
+      if(owner && owner != dbmemseg(db))
+        fldval = wg_translate_hdroffset(db, owner, fldval);
+    }
+#endif
     res=wg_decode_unistr(db,fldval,type);
     return res;
   }
-- 
2.43.0


From 8a8104a3d19b0e3502a2dd69f585e398fd89639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:53 +0000
Subject: [PATCH 82/84] fix: keep the second part of a string in the string
 table when both share a chain

---
 Db/dbdata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 5420102..3906ff3 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2811,6 +2811,8 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     // encode
     res=encode_longstr_offset(offset);
     // store to hash and update hashchain
+    // (the chain may have changed if the extrastr was just stored in it)
+    hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
     dbstore(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash),res);
     //printf("hasharrel 2 %d \n",hasharrel);
     dbstore(db,offset+LONGSTR_HASHCHAIN_POS*sizeof(gint),hasharrel); // store old hash array el
-- 
2.43.0


From ccefd72388e17205407041d65285822141d4a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:02 +0000
Subject: [PATCH 83/84] fix: leave no part of a journal entry that could not be
 written

---
 Db/dblog.c | 31 +++++++++++++++++++++++--------
 Db/dblog.h |  1 +
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 20ecd85..005c253 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -122,7 +122,7 @@ static gint translate_encoded(void *db, void *table, gint enc);
 static gint recover_encode(void *db, FILE *f, gint type);
 static gint recover_journal(void *db, FILE *f, void *table);
 
-static gint write_log_buffer(void *db, void *buf, int buflen);
+static gint write_log_buffer(void *db, void *buf, int buflen, int cont);
 #endif /* USE_DBLOG */
 
 static gint show_log_error(void *db, char *errmsg);
@@ -955,8 +955,11 @@ abort2:
 #ifdef USE_DBLOG
 /** Write a byte buffer to the log file.
  *
+ *  If cont is nonzero, the buffer continues the last entry. When the
+ *  buffer cannot be written, nothing of the entry is left in the file,
+ *  so that the entries that follow later can be read.
  */
-static gint write_log_buffer(void *db, void *buf, int buflen)
+static gint write_log_buffer(void *db, void *buf, int buflen, int cont)
 {
   db_memsegment_header* dbh = dbmemsegh(db);
   db_handle_logdata *ld = \
@@ -996,12 +999,24 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
   dbh->logging.dirty = 1;
 
 #ifndef _WIN32
+  if(!cont)
+    ld->entry = (gint) lseek(ld->fd, 0, SEEK_END);
   if(write(ld->fd, (char *) buf, buflen) != buflen) {
 #else
+  if(!cont)
+    ld->entry = (gint) _lseeki64(ld->fd, 0, SEEK_END);
   if(_write(ld->fd, (char *) buf, buflen) != buflen) {
 #endif
     int fd = ld->fd;
     show_log_error(db, "Error writing to log file");
+    if(ld->entry < WG_JOURNAL_MAGIC_BYTES ||
+#ifndef _WIN32
+      ftruncate(fd, ld->entry)) {
+#else
+      _chsize_s(fd, ld->entry)) {
+#endif
+      show_log_error(db, "Error restoring the log file");
+    }
     ld->fd = -1; /* closed below, do not use again */
     JOURNAL_FAIL(fd, -5)
   }
@@ -1036,7 +1051,7 @@ gint wg_log_create_record(void *db, gint length)
   buf[0] = WG_JOURNAL_ENTRY_CRE;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) length);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1052,7 +1067,7 @@ gint wg_log_delete_record(void *db, gint enc)
   buf[0] = WG_JOURNAL_ENTRY_DEL;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1068,7 +1083,7 @@ gint wg_log_encval(void *db, gint enc)
 #ifdef USE_DBLOG
   unsigned char buf[VARINT_SIZE];
   size_t buflen = enc_varint(buf, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, buflen);
+  return write_log_buffer(db, (void *) buf, buflen, 1);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1148,7 +1163,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
   /* Add a fixed prefix */
   buf[0] = WG_JOURNAL_ENTRY_ENC | type;
 
-  err = write_log_buffer(db, (void *) buf, buflen);
+  err = write_log_buffer(db, (void *) buf, buflen, 0);
   free(buf);
   return err;
 #else
@@ -1169,7 +1184,7 @@ gint wg_log_set_field(void *db, void *rec, gint col, gint data)
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) col);
   optr += enc_varint(optr, (wg_uint) data);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
@@ -1187,7 +1202,7 @@ gint wg_log_set_meta(void *db, void *rec, gint meta)
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) ptrtooffset(db, rec));
   optr += enc_varint(optr, (wg_uint) meta);
-  return write_log_buffer(db, (void *) buf, optr - buf);
+  return write_log_buffer(db, (void *) buf, optr - buf, 0);
 #else
   return show_log_error(db, "Logging is disabled");
 #endif /* USE_DBLOG */
diff --git a/Db/dblog.h b/Db/dblog.h
index cf72c83..397352b 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -55,6 +55,7 @@ typedef struct {
   int fd;
   gint serial;
   int umask;
+  gint entry;   /** position of the last entry in the file */
 } db_handle_logdata;
 
 /* ==== Protos ==== */
-- 
2.43.0


From b1d83d53455b90c19495c5064b5ab1ee1f7b5be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:02 +0000
Subject: [PATCH 84/84] fix: do not keep a record whose creation could not be
 journaled

---
 Db/dbdata.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 3906ff3..d36bb40 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -188,8 +188,11 @@ void* wg_create_raw_record(void* db, wg_int length) {
 #ifdef USE_DBLOG
   /* Append the created offset to log */
   if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encval(db, offset))
+    if(wg_log_encval(db, offset)) {
+      /* what is not in the journal should not be in the database */
+      wg_free_object(db, &(dbmemsegh(db)->datarec_area_header), offset);
       return 0; /* journal error */
+    }
   }
 #endif
 
-- 
2.43.0

