SEEDS = [
dict(id="U01-eat-sep", prop="U01", edits=[("Db/dbutil.c", "        if(eat_sep) {\n          eat_sep = 0; /* should reset this as well */\n        } else if(reclen) {", "        if(!eat_sep && reclen) {")],
  needs="a row that ends in a quoted field, followed by a row that begins with an empty field", breaks="the empty field is dropped and the row shifts to the left",
  demo=r"""
#include "dbutil.h"
int main() { void *db = wg_attach_local_database(1000000), *r; FILE *f = fopen("t.csv", "w"); OK(db && f);
  fputs("1,\"a\"\n,2\n", f); fclose(f); OK(wg_import_db_csv(db, "t.csv") == 0);
  r = wg_get_first_record(db); OK(wg_get_record_len(db, r) == 2); r = wg_get_next_record(db, r); OK(r && wg_get_record_len(db, r) == 2);
  OK(wg_get_field(db, r, 0) == 0 && wg_decode_int(db, wg_get_field(db, r, 1)) == 2); return 0; }"""),
dict(id="U01-dash", prop="U01", edits=[("Db/dbutil.c", "        else if((*ptr < '0' || *ptr > '9') && ptr != buf) {", "        else if((*ptr < '0' || *ptr > '9') && *ptr != '-') {")],
  needs="an unquoted text of digits and dashes that is not a date", breaks="the text becomes the number before the dash",
  demo=r"""
#include "dbutil.h"
int main() { void *db = wg_attach_local_database(1000000); gint e; OK(db);
  e = wg_parse_and_encode(db, "555-1234"); OK(wg_get_encoded_type(db, e) == WG_STRTYPE); OK(!strcmp(wg_decode_str(db, e), "555-1234"));
  e = wg_parse_and_encode(db, "-12"); OK(wg_get_encoded_type(db, e) == WG_INTTYPE && wg_decode_int(db, e) == -12); return 0; }"""),
]
