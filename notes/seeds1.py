SEEDS = [
dict(id="S01-equal-skip", prop="S01", edits=[("Db/dbdata.c", """  if(fielddata == data) {
    return 0;
  }""", """  if(fielddata == data) {
    return 0;
  }
  if(islongstr(fielddata) && islongstr(data) &&\\
    WG_COMPARE(db, fielddata, data) == WG_EQUAL) {
    return 0; /* same text already stored */
  }""")],
  needs="overwriting a string with an equal string in another language", breaks="the field keeps the old language",
  demo=r'''
int main() { void *db = wg_attach_local_database(1000000); void *r;
  OK(db); r = wg_create_record(db, 2);
  OK(!wg_set_field(db, r, 0, wg_encode_str(db, "tere", "et")));
  OK(!wg_set_field(db, r, 0, wg_encode_str(db, "tere", "en")));
  OK(!strcmp(wg_decode_str_lang(db, wg_get_field(db, r, 0)), "en"));
  return 0; }'''),
dict(id="S02-first-special", prop="S02", edits=[("Db/dbdata.c", "    return wg_get_next_record(db, res); /* find first data record */", "    return wg_get_next_raw_record(db, res); /* find first data record */")],
  needs="two special records (index templates) stored before the first data record", breaks="a scan returns a record that is not data",
  demo=r'''
int main() { void *db = wg_attach_local_database(1000000); wg_int t[2]; void *r, *s; int n = 0;
  OK(db);
  t[0] = wg_encode_int(db, 1); t[1] = wg_encode_var(db, 0);
  OK(!wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, t, 2));
  t[0] = wg_encode_int(db, 2);
  OK(!wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, t, 2));
  r = wg_create_record(db, 2); wg_set_int_field(db, r, 0, 5);
  for(s = wg_get_first_record(db); s; s = wg_get_next_record(db, s)) { OK(s == r); n++; }
  OK(n == 1);
  return 0; }'''),
dict(id="V02-extra-shared", prop="V02", edits=[("Db/dbdata.c", """      if(islongstr(tmp)) {
        gint *strptr = (gint *) offsettoptr(db,decode_longstr_offset(tmp));
        ++(*(strptr+LONGSTR_REFCOUNT_POS));
      }""", """      if(islongstr(tmp)) {
        gint *strptr = (gint *) offsettoptr(db,decode_longstr_offset(tmp));
        if(!*(strptr+LONGSTR_REFCOUNT_POS))
          *(strptr+LONGSTR_REFCOUNT_POS) = 1;
      }""")],
  needs="two strings that share the same long second part, one of them deleted", breaks="the shared part is freed while still used",
  demo=r'''
int main() { void *db = wg_attach_local_database(1000000); void *r; char pfx[60], buf[100]; int i;
  OK(db); memset(pfx, 'p', 59); pfx[59] = 0;
  r = wg_create_record(db, 3);
  OK(!wg_set_field(db, r, 0, wg_encode_uri(db, "one", pfx)));
  OK(!wg_set_field(db, r, 1, wg_encode_uri(db, "two", pfx)));
  OK(!wg_set_field(db, r, 0, 0));
  for(i = 0; i < 50; i++) { sprintf(buf, "%040d filler filler filler", i); void *q = wg_create_record(db, 1); wg_set_str_field(db, q, 0, buf); }
  OK(!strcmp(wg_decode_uri_prefix(db, wg_get_field(db, r, 1)), pfx));
  return 0; }'''),
dict(id="B01-clear-all", prop="B01", edits=[("Db/dbdata.c", """        *next_offset = old->cdr; /* remove from list chain */
        wg_free_listcell(db, old_offset); /* free storage */
        goto setfld_backlink_removed;
      }
      next_offset = &(old->cdr);
    }
    show_data_error(db, "Corrupt backlink chain");
    return -4; /* backlink error */""", """        *next_offset = old->cdr; /* remove from list chain */
        wg_free_listcell(db, old_offset); /* free storage */
        removed++;
        continue;
      }
      next_offset = &(old->cdr);
    }
    if(removed) goto setfld_backlink_removed;
    show_data_error(db, "Corrupt backlink chain");
    return -4; /* backlink error */"""), ("Db/dbdata.c", """    gint parent_offset = ptrtooffset(db, record);
    gcell *old = NULL;""", """    gint parent_offset = ptrtooffset(db, record);
    gcell *old = NULL;
    int removed = 0;""")],
  needs="a record referring to the same child from two fields, one of which is overwritten", breaks="the remaining reference is not a parent link: the child can be deleted while referenced",
  demo=r'''
int main() { void *db = wg_attach_local_database(1000000); void *p, *c;
  OK(db); p = wg_create_record(db, 3); c = wg_create_record(db, 1);
  OK(!wg_set_field(db, p, 0, wg_encode_record(db, c)));
  OK(!wg_set_field(db, p, 2, wg_encode_record(db, c)));
  OK(!wg_set_field(db, p, 0, 0));
  OK(wg_get_first_parent(db, c) == p);
  OK(wg_delete_record(db, c) == -1);
  return 0; }'''),
dict(id="C01-int-difference", prop="C01", edits=[("Db/dbcompare.c", "        if(deca==decb) return WG_EQUAL; /* large ints can be equal */\n        return (deca>decb ? WG_GREATER : WG_LESSTHAN);", "        deca -= decb;\n        if(!deca) return WG_EQUAL; /* large ints can be equal */\n        return (deca>0 ? WG_GREATER : WG_LESSTHAN);")],
  needs="integers further apart than the largest integer", breaks="the order of large integers of different sign",
  demo=r'''
int main() { void *db = wg_attach_local_database(1000000); wg_int a, b;
  OK(db); a = wg_encode_int(db, (wg_int) 0x7000000000000000L); b = wg_encode_int(db, (wg_int) -0x7000000000000000L);
  OK(WG_COMPARE(db, a, b) == WG_GREATER); OK(WG_COMPARE(db, b, a) == WG_LESSTHAN);
  return 0; }'''),
dict(id="I01-merge-empty", prop="I01", edits=[("Db/dbindex.c", "        node->current_max=child->current_max;\n        if(!i) node->current_min=child->current_min; /* parent was empty */", "        node->current_max=child->current_max;")],
  needs="emptying a node whose only child is a full right leaf", breaks="the node keeps the minimum of a removed key and later searches miss or misplace entries",
  demo=r"""
int main() { void *db = wg_attach_local_database(4000000); void *r[40], *s; int i, n = 0;
  OK(db); OK(!wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0));
  for(i = 0; i < 16; i++) { r[i] = wg_create_record(db, 1); wg_set_int_field(db, r[i], 0, 100 + i); }
  for(i = 0; i < 8; i++) OK(!wg_delete_record(db, r[i]));
  { wg_int id = wg_column_to_index_id(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0);
    wg_index_header *h = (wg_index_header *) offsettoptr(db, id);
    struct wg_tnode *t = (struct wg_tnode *) offsettoptr(db, TTREE_ROOT_NODE(h));
    OK(t->number_of_elements == 8); OK(wg_decode_int(db, t->current_min) == 108); }
  return 0; }"""),
dict(id="I02-no-separator", prop="I02", edits=[("Db/dbindex.c", "    newlen = prefixlen + fldlen + 1;", "    newlen = prefixlen + fldlen;"), ("Db/dbindex.c", "    newprefix[prefixlen] = '\\0'; /* XXX: why? double-check this */\n", "")],
  needs="a two-column hash index with string keys that contain the type byte, so that the concatenations coincide", breaks="a search returns records with other keys",
  demo=r"""
int main() { void *db = wg_attach_local_database(4000000); void *r, *s; wg_int c[2] = {0, 1}, v[2], id, off; char b[8], d[8];
  OK(db); OK(!wg_create_multi_index(db, c, 2, WG_INDEX_TYPE_HASH, NULL, 0));
  sprintf(b, "a%cb", WG_STRTYPE); sprintf(d, "b%cc", WG_STRTYPE);
  r = wg_create_record(db, 2); wg_set_str_field(db, r, 0, b); wg_set_str_field(db, r, 1, "c");
  s = wg_create_record(db, 2); wg_set_str_field(db, s, 0, "a"); wg_set_str_field(db, s, 1, d);
  id = wg_multi_column_to_index_id(db, c, 2, WG_INDEX_TYPE_HASH, NULL, 0); OK(id > 0);
  v[0] = wg_encode_str(db, "a", NULL); v[1] = wg_encode_str(db, d, NULL);
  off = wg_search_hash(db, id, v, 2); OK(off > 0);
  { gcell *l = (gcell *) offsettoptr(db, off); OK(offsettoptr(db, l->car) == s); OK(!l->cdr); }
  return 0; }"""),
dict(id="I03-template-share", prop="I03", edits=[("Db/dbindex.c", """    if(!(--(tmpl->refcount)))
      remove_index_template(db, hdr->template_offset);""", """    if(--(tmpl->refcount) < 2)
      remove_index_template(db, hdr->template_offset);""")],
  needs="two indexes with equal templates, one of them dropped", breaks="the template of the remaining index is removed",
  demo=r'''
int main() { void *db = wg_attach_local_database(2000000); wg_int t[3], id; void *r; int i;
  OK(db);
  t[0] = wg_encode_int(db, 1); t[1] = wg_encode_var(db, 0); t[2] = wg_encode_var(db, 0);
  OK(!wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, t, 3));
  OK(!wg_create_index(db, 2, WG_INDEX_TYPE_TTREE, t, 3));
  id = wg_column_to_index_id(db, 2, WG_INDEX_TYPE_TTREE, t, 3); OK(id > 0);
  OK(!wg_drop_index(db, id));
  for(i = 0; i < 20; i++) { r = wg_create_record(db, 1); wg_set_int_field(db, r, 0, 7); }
  OK(wg_column_to_index_id(db, 1, WG_INDEX_TYPE_TTREE, t, 3) > 0);
  return 0; }'''),
dict(id="Q01-inclusive-after-exclusive", prop="Q01", edits=[("Db/dbquery.c", """          /* Similar to "less than", but inclusive */
          if(end_bound==WG_ILLEGAL ||\\
            WG_COMPARE(db, end_bound, full_arglist[i].value)==WG_GREATER) {""", """          /* Similar to "less than", but inclusive */
          if(end_bound==WG_ILLEGAL ||\\
            WG_COMPARE(db, end_bound, full_arglist[i].value)!=WG_LESSTHAN) {""")],
  needs="two upper bounds with the same value on one indexed column, the strict one first", breaks="the query also returns rows equal to the strict bound",
  demo=r'''
int main() { void *db = wg_attach_local_database(2000000); void *r; int i, n = 0; wg_query *q; wg_query_arg a[2];
  OK(db); OK(!wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0));
  for(i = 0; i < 20; i++) { r = wg_create_record(db, 1); wg_set_int_field(db, r, 0, i); }
  a[0].column = a[1].column = 0; a[0].cond = WG_COND_LESSTHAN; a[1].cond = WG_COND_LTEQUAL;
  a[0].value = a[1].value = wg_encode_query_param_int(db, 10);
  q = wg_make_query(db, NULL, 0, a, 2); OK(q);
  while((r = wg_fetch(db, q))) { OK(wg_decode_int(db, wg_get_field(db, r, 0)) < 10); n++; }
  OK(n == 10);
  return 0; }'''),
dict(id="Q02-page-end", prop="Q02", edits=[("Db/dbquery.c", """      if(rowlimit && query->res_count >= rowlimit)
        break;""", """      if(rowlimit && query->res_count >= rowlimit && i < QUERY_RESULTSET_PAGESIZE)
        break;""")],
  needs="a row limit that is a multiple of the result page size", breaks="one row too many is returned",
  demo=r'''
int main() { void *db = wg_attach_local_database(4000000); void *r; int i, n = 0; wg_query *q;
  OK(db); for(i = 0; i < 300; i++) { r = wg_create_record(db, 1); wg_set_int_field(db, r, 0, i); }
  for(i = 1; i < 300; i++) {
    q = wg_make_query_rc(db, NULL, 0, NULL, 0, i); OK(q);
    for(n = 0; wg_fetch(db, q); n++);
    wg_free_query(db, q);
    OK(n == i);
  }
  return 0; }'''),
dict(id="Q03-resume-exclusive", prop="Q03", edits=[("Db/dbquery.c", """    if(find_ttree_bounds(db, index_id, fieldnr,
        start_bound, end_bound, start_inclusive, end_inclusive,
        &curr_offset, &curr_slot, &end_offset, &end_slot)) {
      return NULL;
    }

    /* We have the bounds, scan to lastrecord */""", """    /* Continue near lastrecord instead of starting over */
    if(lastrecord && cond != WG_COND_EQUAL)
      start_bound = wg_get_field(db, lastrecord, fieldnr);

    if(find_ttree_bounds(db, index_id, fieldnr,
        start_bound, end_bound, start_inclusive, end_inclusive,
        &curr_offset, &curr_slot, &end_offset, &end_slot)) {
      return NULL;
    }

    /* We have the bounds, scan to lastrecord */
    if(lastrecord && !start_inclusive)
      lastrecord = NULL; /* already excluded by the bound */""")],
  needs="an indexed search with 'greater than' over duplicate values", breaks="further records with the same value are skipped",
  demo=r"""
int main() { void *db = wg_attach_local_database(2000000); void *r[20], *s = NULL; int i, n = 0;
  OK(db); OK(!wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0));
  for(i = 0; i < 20; i++) { r[i] = wg_create_record(db, 1); wg_set_int_field(db, r[i], 0, i / 2); }
  while((s = wg_find_record_int(db, 0, WG_COND_GREATER, 4, s))) n++;
  OK(n == 10);
  return 0; }"""),
]
