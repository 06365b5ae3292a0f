/* Observation shim: read-only projections of database-internal structures for the conformance
 * checks.  Compiled together with the Db/ sources of /repo; it never modifies the database. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "../config.h"
#include "dballoc.h"
#include "dbdata.h"
#include "dbcompare.h"
#include "dbindex.h"
#include "dbhash.h"
#include "dbmem.h"
#include "dbschema.h"
#include "dbquery.h"

#define OUT(v) do { if (n < max) out[n] = (gint)(v); n++; } while (0)

gint vh_compare(void *db, gint a, gint b) { return WG_COMPARE(db, a, b); }
gint vh_compare_depth(void *db, gint a, gint b, gint depth) { return wg_compare(db, a, b, (int) depth); }
gint vh_offset(void *db, void *ptr) { return ptrtooffset(db, ptr); }
void *vh_ptr(void *db, gint off) { return offsettoptr(db, off); }
gint vh_meta(void *db, void *rec) { return *((gint *) rec + RECORD_META_POS); }
gint vh_seg_free(void *db) { return dbmemsegh(db)->free; }
gint vh_seg_size(void *db) { return dbmemsegh(db)->size; }
void *vh_seg_base(void *db) { return dbmemseg(db); }
gint vh_hdr_size(void) { return sizeof(db_memsegment_header); }
gint vh_is_longstr(gint enc) { return isptr(enc) && islongstr(enc); }
gint vh_log_active(void *db) { return dbmemsegh(db)->logging.active; }
gint vh_log_dirty(void *db) { return dbmemsegh(db)->logging.dirty; }
gint vh_num_indexes(void *db) { return dbmemsegh(db)->index_control_area_header.number_of_indexes; }
gint vh_lock_area(void *db) { return (gint) ((char *)&dbmemsegh(db)->locks - (char *) dbmemseg(db)); }
gint vh_refcount(void *db, gint enc) { return dbfetch(db, decode_longstr_offset(enc) + LONGSTR_REFCOUNT_POS*sizeof(gint)); }
gint vh_extrastr(void *db, gint enc) { return dbfetch(db, decode_longstr_offset(enc) + LONGSTR_EXTRASTR_POS*sizeof(gint)); }

static db_area_header *area(void *db, gint a) {
  db_memsegment_header *h = dbmemsegh(db);
  switch (a) {
    case 0: return &h->datarec_area_header;
    case 1: return &h->longstr_area_header;
    case 2: return &h->indexhash_area_header;
    case 3: return &h->listcell_area_header;
    case 4: return &h->shortstr_area_header;
    case 5: return &h->word_area_header;
    case 6: return &h->doubleword_area_header;
    case 7: return &h->tnode_area_header;
    case 8: return &h->indexhdr_area_header;
    case 9: return &h->indextmpl_area_header;
  }
  return NULL;
}

/* sub-areas: (aligned offset, aligned size) pairs; returns number of gints, -1 bad */
gint vh_subareas(void *db, gint a, gint *out, gint max) {
  db_area_header *h = area(db, a); gint n = 0, i;
  for (i = 0; i <= h->last_subarea_index && i < SUBAREA_ARRAY_SIZE; i++) {
    OUT(h->subarea_array[i].alignedoffset); OUT(h->subarea_array[i].alignedsize);
    OUT(h->subarea_array[i].offset); OUT(h->subarea_array[i].size);
  }
  return n;
}
/* the objects of a variable-length area in address order:
 * (offset, size, kind, head word low bits); kind 0 used, 1 free, 2 start, 3 end, 4 designated victim.
 * -1: walk left the area */
gint vh_objects(void *db, gint a, gint *out, gint max) {
  db_area_header *h = area(db, a); gint n = 0, i;
  for (i = 0; i <= h->last_subarea_index && i < SUBAREA_ARRAY_SIZE; i++) {
    gint off = h->subarea_array[i].alignedoffset, end = off + h->subarea_array[i].alignedsize, first = 1;
    if (!h->subarea_array[i].alignedsize) continue;
    while (off < end) {
      gint head = dbfetch(db, off), size, kind;
      if (isfreeobject(head)) { size = getfreeobjectsize(head); kind = 1; }
      else if (isspecialusedobject(head)) {
        size = getspecialusedobjectsize(head);
        if (dbfetch(db, off + sizeof(gint)) == SPECIALGINT1DV) kind = 4;
        else kind = first ? 2 : 3;
      } else { size = getusedobjectsize(head); kind = 0; }
      if (size <= 0 || off + size > end) return -1;
      if (kind == 1 && dbfetch(db, off + size - sizeof(gint)) != head) return -2;
      OUT(off); OUT(size); OUT(kind); OUT(head & 3);
      off += size; first = 0;
    }
  }
  return n;
}
/* free lists: (bucket, offset, size, prev link ok) */
gint vh_buckets(void *db, gint a, gint *out, gint max) {
  db_area_header *h = area(db, a); gint n = 0, i, guard = 0;
  for (i = 0; i < EXACTBUCKETS_NR + VARBUCKETS_NR; i++) {
    gint prev = dbaddr(db, &(h->freebuckets[i])), o = h->freebuckets[i];
    while (o) {
      if (o < 0 || o >= dbmemsegh(db)->size || guard++ > 1000000) return -1;
      OUT(i); OUT(o); OUT(getfreeobjectsize(dbfetch(db, o))); OUT(dbfetch(db, o + 2*sizeof(gint)) == prev);
      prev = o; o = dbfetch(db, o + sizeof(gint));
    }
  }
  OUT(-1); OUT(h->freebuckets[DVBUCKET]); OUT(h->freebuckets[DVSIZEBUCKET]); OUT(1);
  return n;
}
gint vh_bucket_of(void *db, gint size) { return wg_freebuckets_index(db, size); }
/* free list of a fixed-length area; -1 bad */
gint vh_fixfree(void *db, gint a, gint *out, gint max) {
  db_area_header *h = area(db, a); gint n = 0, o = h->freelist;
  while (o) {
    if (o < 0 || o >= dbmemsegh(db)->size || n > 4000000) return -1;
    OUT(o); o = dbfetch(db, o);
  }
  return n;
}
gint vh_objlength(void *db, gint a) { return area(db, a)->objlength; }

/* T-tree: per node off,parent,left,right,lh,rh,count,min,max,succ,pred,slots[...WG_TNODE_ARRAY_SIZE] preceded by
 * a header root,minnode,maxnode,arraysize */
static gint tnode(void *db, gint off, gint *out, gint max, gint n, int depth) {
  struct wg_tnode *t; gint i;
  if (off <= 0 || off >= dbmemsegh(db)->size || depth > 60) return -1;
  t = (struct wg_tnode *) offsettoptr(db, off);
  OUT(off); OUT(t->parent_offset); OUT(t->left_child_offset); OUT(t->right_child_offset);
  OUT(t->left_subtree_height); OUT(t->right_subtree_height); OUT(t->number_of_elements);
  OUT(t->current_min); OUT(t->current_max);
#ifdef TTREE_CHAINED_NODES
  OUT(t->succ_offset); OUT(t->pred_offset);
#else
  OUT(-1); OUT(-1);
#endif
  for (i = 0; i < WG_TNODE_ARRAY_SIZE; i++) OUT(t->array_of_values[i]);
  if (t->left_child_offset) { n = tnode(db, t->left_child_offset, out, max, n, depth + 1); if (n < 0) return n; }
  if (t->right_child_offset) { n = tnode(db, t->right_child_offset, out, max, n, depth + 1); if (n < 0) return n; }
  return n;
}
gint vh_ttree(void *db, gint index_id, gint *out, gint max) {
  wg_index_header *h = (wg_index_header *) offsettoptr(db, index_id); gint n = 0;
  OUT(TTREE_ROOT_NODE(h));
#ifdef TTREE_CHAINED_NODES
  OUT(TTREE_MIN_NODE(h)); OUT(TTREE_MAX_NODE(h));
#else
  OUT(-1); OUT(-1);
#endif
  OUT(WG_TNODE_ARRAY_SIZE);
  return tnode(db, TTREE_ROOT_NODE(h), out, max, n, 0);
}
/* hash index: (bucket, record offset) pairs */
gint vh_hashidx(void *db, gint index_id, gint *out, gint max) {
  wg_index_header *h = (wg_index_header *) offsettoptr(db, index_id); gint n = 0, i, guard = 0;
  db_hash_area_header *ha = HASHIDX_ARRAYP(h);
  for (i = 0; i < ha->arraylength; i++) {
    gint b = dbfetch(db, ha->arraystart + sizeof(gint)*i);
    while (b) {
      gint c = dbfetch(db, b + HASHIDX_RECLIST_POS*sizeof(gint));
      if (guard++ > 1000000) return -1;
      if (!c) { OUT(b); OUT(0); }
      while (c) {
        gcell *cell = (gcell *) offsettoptr(db, c);
        if (guard++ > 1000000) return -1;
        OUT(b); OUT(cell->car);
        c = cell->cdr;
      }
      b = dbfetch(db, b + HASHIDX_HASHCHAIN_POS*sizeof(gint));
    }
  }
  return n;
}
/* interned strings: (encoded value, refcount) pairs */
gint vh_strhash(void *db, gint *out, gint max) {
  db_hash_area_header *ha = &(dbmemsegh(db)->strhash_area_header); gint n = 0, i, guard = 0;
  for (i = 0; i < ha->arraylength; i++) {
    gint s = dbfetch(db, ha->arraystart + sizeof(gint)*i);
    while (s) {
      if (guard++ > 1000000) return -1;
      OUT(s); OUT(dbfetch(db, decode_longstr_offset(s) + LONGSTR_REFCOUNT_POS*sizeof(gint)));
      s = dbfetch(db, decode_longstr_offset(s) + LONGSTR_HASHCHAIN_POS*sizeof(gint));
    }
  }
  return n;
}
/* back links of a record */
gint vh_backlinks(void *db, void *rec, gint *out, gint max) {
  gint n = 0, c = *((gint *) rec + RECORD_BACKLINKS_POS), guard = 0;
  while (c) {
    gcell *cell = (gcell *) offsettoptr(db, c);
    if (guard++ > 1000000) return -1;
    OUT(cell->car); c = cell->cdr;
  }
  return n;
}
/* raw scan including special records: record offsets and meta */
gint vh_allrecs(void *db, gint *out, gint max) {
  gint n = 0; void *r = wg_get_first_raw_record(db);
  while (r && n < 4000000) { OUT(ptrtooffset(db, r)); OUT(*((gint *) r + RECORD_META_POS)); r = wg_get_next_raw_record(db, r); }
  return n;
}
/* the rest of the index catalogue */
gint vh_index_cols(void *db, gint index_id, gint *out, gint max) {
  wg_index_header *h = (wg_index_header *) offsettoptr(db, index_id); gint n = 0, i;
  for (i = 0; i < h->fields && i < MAX_INDEX_FIELDS; i++) OUT(h->rec_field_index[i]);
  return n;
}
void vh_free(void *p) { free(p); }
gint vh_query_count(wg_query *q) { return q->res_count; }
gint vh_query_type(wg_query *q) { return q->qtype; }
/* the allocators themselves */
gint vh_alloc(void *db, gint a, gint n) { return wg_alloc_gints(db, area(db, a), n); }
gint vh_release(void *db, gint a, gint off) { return wg_free_object(db, area(db, a), off); }
gint vh_falloc(void *db, gint a) { return wg_alloc_fixlen_object(db, area(db, a)); }
void vh_frelease(void *db, gint a, gint off) { wg_free_fixlen_object(db, area(db, a), off); }

/* a database in a segment of exactly the given size that ends at memory which cannot be touched
 * (builds without a database handle use the address of the segment itself) */
#include <sys/mman.h>
void *vh_guard_new(gint size) {
  size_t page = 4096, len = ((size_t) (size > 0 ? size : 0) + page - 1) / page * page, all = len + 2 * 16 * page;
  char *m, *base;
  void *db;
  if (size < 16) return NULL;
  m = mmap(NULL, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) abort();
  if (mprotect(m + 16 * page, len, PROT_READ | PROT_WRITE)) abort();
  base = m + 16 * page + (len - size) / 16 * 16;
  memset(m + 16 * page, 0x5a, len);
#ifdef USE_DATABASE_HANDLE
  db = wg_attach_local_database(1000000);
  free(((db_handle *) db)->db);
  ((db_handle *) db)->db = base;
#else
  db = base;
#endif
  if (wg_init_db_memsegment(db, 0, size)) {
    munmap(m, all);
#ifdef USE_DATABASE_HANDLE
    ((db_handle *) db)->db = NULL;
    wg_delete_local_database(db);
#endif
    return NULL;
  }
  return db;
}
void vh_guard_free(void *db) {
  char *base = dbmemseg(db);
  size_t page = 4096, size = dbmemsegh(db)->size, len = (size + page - 1) / page * page;
  char *m = base - (len - size) / 16 * 16 - 16 * page;
  munmap(m, len + 2 * 16 * page);
#ifdef USE_DATABASE_HANDLE
  ((db_handle *) db)->db = NULL;
  wg_delete_local_database(db);
#endif
}
