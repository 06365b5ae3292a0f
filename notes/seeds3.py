SEEDS = [
dict(id="V01-copy-room", prop="V01", edits=[("Db/dbdata.c", """    if(buflen<strsize) {
      show_data_error_nr(db,"insufficient buffer length given to wg_decode_unistr_copy:",buflen);
      return -1;
    }
    memcpy(strbuf,dataptr,strsize);
    //*(dataptr+strsize)=0;""", """    if(buflen<strsize-(type!=WG_BLOBTYPE)) {
      show_data_error_nr(db,"insufficient buffer length given to wg_decode_unistr_copy:",buflen);
      return -1;
    }
    memcpy(strbuf,dataptr,strsize);
    //*(dataptr+strsize)=0;""")],
  needs="copying a long string into a buffer exactly one byte too small", breaks="the terminator is written behind the buffer",
  demo=r"""
int main() { void *db = wg_attach_local_database(1000000); char b[64]; wg_int e;
  OK(db); e = wg_encode_str(db, "0123456789012345678901234567890123456789", "en");
  memset(b, 'x', 64); OK(wg_decode_str_copy(db, e, b, 41) == 40); OK(b[40] == 0 && b[41] == 'x');
  memset(b, 'x', 64); wg_decode_str_copy(db, e, b, 40); OK(b[40] == 'x');
  return 0; }"""),
dict(id="A01-dv-prevfree", prop="A01", edits=[("Db/dballoc.c", """    nextobject=dv+dvsize;
    tmp=dbfetch(db,nextobject);
    if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevfree(tmp));
    // let the old dv be handled""", """    nextobject=dv+dvsize;
    tmp=dbfetch(db,nextobject);
    if (isnormalusedobject(tmp) && nextobject!=object+size) dbstore(db,nextobject,makeusedobjectsizeprevfree(tmp));
    // let the old dv be handled"""), ("Db/dballoc.c", """    tmp=dbfetch(db,nextobject);
    if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
    // dv handling
    if (dv==0) return 0;""", """    tmp=dbfetch(db,nextobject);
    if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
    // dv handling
    if (dvsize<2*MIN_VARLENOBJ_SIZE) {
      // a remainder this small is not worth a place in the freelists
      if (dv) dbstore(db,dv,makeusedobjectsizeprevused(dvsize));
      return 0;
    }
    if (dv==0) return 0;""")],
  needs="a designated victim of the smallest size that is replaced by a larger freed block", breaks="the small block is lost and never merged with its neighbours",
  demo=r"""
static long freebytes(void *db, void *first) { return 0; }
int main() { void *db = wg_attach_local_database(2000000), *r[4000]; int n, i, k; db_area_header *h; gint sum, p, head;
  OK(db); h = &(dbmemsegh(db)->datarec_area_header);
  for(k = 0; k < 3; k++) {
    /* shrink the designated victim to the smallest size, then free a larger block */
    for(n = 0; n < 3000 && (h->freebuckets[DVSIZEBUCKET] >= 2*MIN_VARLENOBJ_SIZE || n < 3); n++) { OK(r[n] = wg_create_record(db, n < 3 ? 6 : 1)); }
    for(i = 0; i < n; i++) OK(!wg_delete_record(db, r[i]));
  }
  /* everything is deleted: every sub-area has to be one block again */
  for(i = 0; i <= h->last_subarea_index; i++) {
    db_subarea_header *s = &h->subarea_array[i];
    gint want = 0, o = s->alignedoffset, end = o + s->alignedsize;
    p = o + getusedobjectsize(dbfetch(db, o)); /* start marker */
    head = dbfetch(db, p);
    sum = isfreeobject(head) ? getfreeobjectsize(head) : getusedobjectsize(head);
    OK(p + sum == end - MIN_VARLENOBJ_SIZE);
  }
  return 0; }"""),
dict(id="J01-identity-double", prop="J01", edits=[("Db/dblog.c", """        offset = decode_fulldouble_offset(old);
        newoffset = decode_fulldouble_offset(new);
        return add_tran_offset(db, table, offset, newoffset);""", """        offset = decode_fulldouble_offset(old);
        newoffset = decode_fulldouble_offset(new);
        if(offset == newoffset)
          return 0; /* identity need not be stored */
        return add_tran_offset(db, table, offset, newoffset);""")],
  needs="a double that is stored at the same address while logging and while replaying after an earlier double of that address was not", breaks="the replayed field holds an earlier double",
  demo=r"""
int main() { void *db = wg_attach_local_database(2000000), *d2, *r, *a; char fn[200]; wg_int e, x, y; int i; double v;
  OK(db); OK(!wg_start_logging(db)); wg_journal_filename(db, fn, 200);
  r = wg_create_record(db, 12); OK(r);
  /* values freed before they are used are kept by the replay, which moves later ones */
  x = wg_encode_double(db, 1.5); wg_free_encoded(db, x);
  OK(!wg_set_double_field(db, r, 0, 2.5)); OK(!wg_set_double_field(db, r, 1, 3.5));
  OK(!wg_set_int_field(db, r, 0, 0)); OK(!wg_set_int_field(db, r, 1, 0));
  x = wg_encode_double(db, 4.5); wg_free_encoded(db, x);
  for(i = 0; i < 12; i++) { OK(!wg_set_double_field(db, r, i, 100 + i)); }
  OK(!wg_stop_logging(db));
  d2 = wg_attach_local_database(2000000); OK(d2); OK(!wg_replay_log(d2, fn));
  a = wg_get_first_record(d2); OK(a);
  for(i = 0; i < 12; i++) { v = wg_decode_double(d2, wg_get_field(d2, a, i)); OK(v == 100 + i); }
  return 0; }"""),
dict(id="J02-third-byte", prop="J02", edits=[("Db/dblog.c", """    if(c & 0x80) {
      GET_LOG_BYTE(db, f, c)
      tmp |= ((c & 0x7f) << 14);""", """    if(c & 0x80) {
      if((c = fgetc(f)) == EOF) c = 0;
      tmp |= ((c & 0x7f) << 14);""")],
  needs="a journal cut inside the last number of an entry, between its second and third byte", breaks="the cut entry is replayed with a wrong number and the journal is accepted as complete",
  demo=r"""
int main() { void *db = wg_attach_local_database(4000000), *d2, *r; char fn[200], cut[210]; FILE *f; char *buf; long n, full;
  OK(db); OK(!wg_start_logging(db)); wg_journal_filename(db, fn, 200);
  OK(r = wg_create_record(db, 3)); OK(!wg_set_int_field(db, r, 1, 100000)); OK(!wg_stop_logging(db));
  OK(f = fopen(fn, "rb")); buf = malloc(100000); full = fread(buf, 1, 100000, f); fclose(f);
  for(n = full - 1; n > full - 3; n--) {
    snprintf(cut, 210, "%s.cut", fn);
    OK(f = fopen(cut, "wb")); fwrite(buf, 1, n, f); fclose(f);
    d2 = wg_attach_local_database(4000000); OK(d2); OK(wg_replay_log(d2, cut) != 0); wg_delete_local_database(d2);
  }
  return 0; }"""),
dict(id="J03-refused-replay", prop="J03", edits=[("Db/dblog.c", """  if(check_journal(db, fd)) {
    err = -1;
    goto abort2;
  }

  active = dbh->logging.active;
  dbh->logging.active = 0; /* turn logging off before restoring */
""", """  active = dbh->logging.active;
  dbh->logging.active = 0; /* turn logging off before restoring */

  if(check_journal(db, fd)) {
    err = -1;
    goto abort2;
  }
""")],
  needs="replaying a file that is no journal while logging is on", breaks="logging is silently switched off, later changes are not recoverable",
  demo=r"""
int main() { void *db = wg_attach_local_database(2000000), *d2, *r; char fn[200], bad[300]; FILE *f; char t[] = "wgjXXXXXX"; int i;
  OK(db); OK(!wg_start_logging(db)); wg_journal_filename(db, fn, 200);
  OK(r = wg_create_record(db, 1));
  OK((i = mkstemp(t)) >= 0); OK(write(i, "nojournal", 9) == 9); close(i);
  OK(wg_replay_log(db, t)); unlink(t);
  OK(!wg_set_int_field(db, r, 0, 77));
  d2 = wg_attach_local_database(2000000); OK(d2); OK(!wg_replay_log(d2, fn));
  OK(r = wg_get_first_record(d2)); OK(wg_get_field_type(d2, r, 0) == WG_INTTYPE && wg_decode_int(d2, wg_get_field(d2, r, 0)) == 77);
  return 0; }"""),
dict(id="D02-fit", prop="D02", edits=[("Db/dbdump.c", "  if(dbh->size < dbsize) {", "  if(dbh->size + SEGMENT_PAGESIZE < dbsize) {"), ("Db/dbdump.c", "#define BUFSIZE 8192", "#define BUFSIZE 8192\n#define SEGMENT_PAGESIZE 4096 /* segments occupy whole pages */")],
  needs="importing a dump that is a little larger than the segment", breaks="the import writes behind the end of the segment",
  demo=r"""
int main() { void *db = wg_attach_local_database(4000000), *d2; char t[] = "wgdXXXXXX"; gint mn, mx, i; int fd; gint f0;
  OK(db); for(i = 0; i < 3000; i++) OK(wg_create_record(db, 20));
  OK((fd = mkstemp(t)) >= 0); close(fd);
  OK(!wg_dump(db, t)); OK(!wg_check_dump(db, t, &mn, &mx));
  d2 = wg_attach_local_database(mn - 8); OK(d2);
  f0 = dbmemsegh(d2)->free;
  i = wg_import_dump(d2, t); unlink(t);
  OK(i != 0); OK(dbmemsegh(d2)->free == f0);
  return 0; }"""),
dict(id="D01-locks-logging", prop="D01", edits=[("Db/dbdump.c", """  if(active) { /* state inherited from memory */
    if(wg_start_logging(db)) {
      return -2; /* Failed to re-initialize log */
    }
  }
#endif
  return wg_init_locks(db);""", """  if(active) { /* state inherited from memory */
    err = wg_start_logging(db);
    if(err)
      err = -2; /* Failed to re-initialize log */
  } else
#endif
    err = wg_init_locks(db);
  return err;""")],
  needs="importing a dump (which was written under the write lock) while logging is on", breaks="the imported database is locked for ever",
  demo=r"""
int main() { void *db = wg_attach_local_database(4000000), *r; char t[] = "wgdXXXXXX", fn[200]; int fd; gint l;
  OK(db); OK(r = wg_create_record(db, 2)); OK(!wg_set_int_field(db, r, 0, 5)); OK(!wg_start_logging(db)); wg_journal_filename(db, fn, 200);
  OK((fd = mkstemp(t)) >= 0); close(fd);
  OK(!wg_dump(db, t)); OK(!wg_set_int_field(db, r, 0, 6)); OK(!wg_import_dump(db, t)); unlink(t);
  OK(wg_decode_int(db, wg_get_field(db, wg_get_first_record(db), 0)) == 5);
  OK(l = wg_start_write(db)); OK(wg_end_write(db, l)); OK(l = wg_start_read(db)); OK(wg_end_read(db, l));
  return 0; }"""),
]
