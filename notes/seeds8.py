SEEDS = [
dict(id="A02-phantom-subarea", prop="A02", edits=[("Db/dballoc.c", """  segmentchunk=alloc_db_segmentchunk(db,size);
  if (!segmentchunk) return -2; // errcase
  areah=(db_area_header*)area_header;
  ((areah->subarea_array)[index]).size=size;
""", """  areah=(db_area_header*)area_header;
  ((areah->subarea_array)[index]).size=size;
  areah->last_subarea_index=index;
  segmentchunk=alloc_db_segmentchunk(db,size);
  if (!segmentchunk) return -2; // errcase
""")],
  needs="a storage area that cannot grow any more, and a scan over the records afterwards", breaks="the part of the area that could not be made is taken for part of it: scans leave the data or crash, and the area never grows again",
  demo=r"""
int main() { void *db = wg_attach_local_database(1000000), *r; int n = 0, m = 0; OK(db); fclose(stderr);
  while((r = wg_create_record(db, 20))) { n++; OK(n < 100000); }
  for(r = wg_get_first_record(db); r && m <= n; r = wg_get_next_record(db, r)) { OK(wg_get_record_len(db, r) == 20); m++; }
  OK(n == m); return 0; }"""),
dict(id="A02-hash-chain", prop="A02", edits=[("Db/dbdata.c", """    lstrptr=(char*)(offsettoptr(db,offset));
    // store string contents
    memcpy(lstrptr+(LONGSTR_HEADER_GINTS*sizeof(gint)),data,length);
    //zero the rest
    for(i=0;lenrest""", """    lstrptr=(char*)(offsettoptr(db,offset));
    // link it into the hash chain
    res=encode_longstr_offset(offset);
    dbstore(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash),res);
    dbstore(db,offset+LONGSTR_HASHCHAIN_POS*sizeof(gint),hasharrel); // store old hash array el
    // store string contents
    memcpy(lstrptr+(LONGSTR_HEADER_GINTS*sizeof(gint)),data,length);
    //zero the rest
    for(i=0;lenrest"""), ("Db/dbdata.c", """    // encode
    res=encode_longstr_offset(offset);
    // store to hash and update hashchain
""", ""), ("Db/dbdata.c", """    dbstore(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash),res);
    //printf("hasharrel 2 %d \\n",hasharrel);
    dbstore(db,offset+LONGSTR_HASHCHAIN_POS*sizeof(gint),hasharrel); // store old hash array el
    // return result
    return res;
  }

}



char* wg_decode_unistr(""", """    // return result
    return res;
  }

}



char* wg_decode_unistr(""")],
  needs="a long string with a long language part, when there is room for the string but not for the part; then another string at that place", breaks="the freed string stays in the table of strings, whose chain then leads into other data",
  demo=r"""
#include "dbdata.h"
int main() { void *db = wg_attach_local_database(1000000), *r, *big; int i, n = 0; gint e; char s[400], x[4000], *h; OK(db); fclose(stderr);
  db_memsegment_header *d = dbmemsegh(db);
  memset(x, 'x', 3999); x[3999] = 0;
  /* no room: occupy everything, then free one place for a string of 200 bytes */
  gint o, last = 0, k = 60000;
  while(k >= 4) { o = wg_alloc_gints(db, &d->longstr_area_header, k); if(o > 0) n++; else k = k > 8 ? k * 3 / 4 : k - 1; if(o > 0 && k >= 40 && k < 50 ) last = o; OK(n < 100000); }
  OK(last); wg_free_object(db, &d->longstr_area_header, last);
  memset(s, 'a', 150); s[150] = 0;
  gint *tab = (gint *) offsettoptr(db, d->strhash_area_header.arraystart); gint before = 0, after = 0;
  for(i = 0; i < d->strhash_area_header.arraylength; i++) before += tab[i];
  OK(wg_encode_str(db, s, x) == WG_ILLEGAL);
  for(i = 0; i < d->strhash_area_header.arraylength; i++) after += tab[i];
  OK(before == after); return 0; }"""),
]
