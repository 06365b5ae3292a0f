SEEDS = [
dict(id="J01-no-room-quiet", prop="J01", edits=[("Db/dbdata.c", """    show_data_error_nr(db,"cannot create a record of size ",length);
#ifdef USE_DBLOG
    if(dbmemsegh(db)->logging.active) {
      wg_log_encval(db, 0);
    }
#endif
    return 0;""", """    show_data_error_nr(db,"cannot create a record of size ",length);
    return 0;""")],
  needs="a journal, and a record that cannot be created for lack of room, followed by further changes; then recovery", breaks="the entry of the record that was not made has no end: what follows is taken for it",
  demo=r"""
int main() { void *db, *d2; gint *r; char fn[200]; freopen("/dev/null", "w", stderr);
  db = wg_attach_local_database(300000); OK(db); OK(wg_start_logging(db) == 0); wg_journal_filename(db, fn, 200);
  r = wg_create_record(db, 2); OK(r);
  OK(!wg_create_record(db, 1000000));
  OK(!wg_set_field(db, r, 0, wg_encode_int(db, 5))); OK(!wg_set_field(db, r, 1, wg_encode_int(db, 7)));
  OK(wg_stop_logging(db) == 0); d2 = wg_attach_local_database(8000000); OK(d2);
  OK(wg_replay_log(d2, fn) == 0); unlink(fn);
  r = wg_get_first_record(d2); OK(r); OK(wg_decode_int(d2, wg_get_field(d2, r, 0)) == 5); OK(wg_decode_int(d2, wg_get_field(d2, r, 1)) == 7); OK(!wg_get_next_record(d2, r)); return 0; }"""),
]
