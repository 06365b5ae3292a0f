SEEDS = [
dict(id="E01-foreign-word", prop="E01", edits=[("Db/dbdata.c", """    case FULLINTBITSV0:
#ifdef USE_CHILD_DB
      offset = decode_fullint_offset(encoffset);
      if(!is_local_offset(db, offset))
        break; /* Non-local reference, ignore it */
      wg_free_word(db, offset);
#else""", """    case FULLINTBITSV0:
#ifdef USE_CHILD_DB
      offset = decode_fullint_offset(encoffset);
      if(!offset)
        break; /* nothing was stored */
      wg_free_word(db, offset);
#else""")],
  needs="a field that holds a large integer of another database , and is overwritten", breaks="the cell of the other database is put into the free list of this one: later integers overwrite the other database",
  demo=r"""
int main() { void *a = wg_attach_local_database(1000000), *b = wg_attach_local_database(1000000); void *r, *s; int i; gint big = (gint) 1 << 62;
  OK(a && b); OK(wg_register_external_db(a, b) == 0); s = wg_create_record(b, 8); r = wg_create_record(a, 8); OK(s && r);
  for(i = 0; i < 8; i++) { OK(wg_set_field(b, s, i, wg_encode_int(b, big + i)) == 0); OK(wg_set_field(a, r, i, wg_encode_external_data(a, b, wg_get_field(b, s, i))) == 0); }
  for(i = 0; i < 8; i++) OK(wg_set_field(a, r, i, wg_encode_null(a, 0)) == 0);
  for(i = 0; i < 8; i++) OK(wg_set_field(a, r, i, wg_encode_int(a, -big - 1 - i)) == 0);
  for(i = 0; i < 8; i++) OK(wg_decode_int(b, wg_get_field(b, s, i)) == big + i);
  return 0; }"""),
dict(id="E01-two-owners", prop="E01", edits=[("Db/dbcompare.c", "elemb = wg_translate_hdroffset(db, parentb, elemb);", "elemb = wg_translate_hdroffset(db, parenta, elemb);"), ("Db/dbcompare.c", "            if(parentb != dbmemseg(db)) {", "            if(parenta != dbmemseg(db) && parentb != dbmemseg(db)) {")],
  needs="a comparison of two records of which the second belongs to another external database than the first one, with values that are not stored in the field itself", breaks="the values of the second record are looked up in the wrong database",
  demo=r"""
int main() { void *m = wg_attach_local_database(1000000), *a = wg_attach_local_database(1000000), *b = wg_attach_local_database(1000000); void *r, *s, *t, *q; wg_query_arg al[1]; wg_query *qq; int n = 0;
  OK(m && a && b); OK(!wg_register_external_db(m, a) && !wg_register_external_db(m, b)); r = wg_create_record(a, 1); s = wg_create_record(b, 1); OK(r && s);
  wg_set_field(b, wg_create_record(b, 1), 0, wg_encode_double(b, 9.5)); /* the cells lie at different places */
  wg_set_field(a, r, 0, wg_encode_double(a, 2.5)); wg_set_field(b, s, 0, wg_encode_double(b, 2.5));
  t = wg_create_record(m, 1); wg_set_field(m, t, 0, wg_encode_external_data(m, a, wg_encode_record(a, r)));
  al[0].column = 0; al[0].cond = WG_COND_EQUAL; al[0].value = wg_encode_external_data(m, b, wg_encode_record(b, s));
  qq = wg_make_query(m, NULL, 0, al, 1); OK(qq); while((q = wg_fetch(m, qq))) n += q == t; OK(n == 1); return 0; }"""),
dict(id="E01-held-twice", prop="E01", edits=[("Db/dbdata.c", "  if (islongstr(data) && offset_owner == dbmemseg(db)) {", "  if (islongstr(data) && offset_owner) {", 0)],
  needs="a long string of another database referred to from a field, and deleted in its own database afterwards", breaks="the other database counts a reference that is not its own and never frees the string",
  demo=r"""
int main() { void *a = wg_attach_local_database(1000000), *b = wg_attach_local_database(1000000); void *r, *s; gint before, e; int i; char buf[100];
  OK(a && b); OK(wg_register_external_db(a, b) == 0); s = wg_create_record(b, 1); r = wg_create_record(a, 1); OK(s && r);
  e = wg_encode_str(b, "a string of another database, stored once", NULL); OK(wg_set_field(b, s, 0, e) == 0);
  OK(wg_set_field(a, r, 0, wg_encode_external_data(a, b, e)) == 0);
  before = dbfetch(b, decode_longstr_offset(e) + LONGSTR_REFCOUNT_POS * sizeof(gint)); OK(before == 1); return 0; }"""),
]
