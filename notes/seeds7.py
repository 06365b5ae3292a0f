SEEDS = [
dict(id="N01-surrogate-edge", prop="N01", edits=[("json/yajl_all.c", "    } else if (codepoint < 0x10000) {", "    } else if (codepoint < 0xffff) {")],
  needs="the character U+FFFF written as an escape", breaks="it is stored as four bytes that are no character",
  demo=r"""
#include "dbjson.h"
int main() { void *db = wg_attach_local_database(1000000), *d = NULL; gint e; OK(db);
  OK(wg_parse_json_document(db, "[\"\\uFFFF\", \"\\u20ac\", \"\\ud83d\\ude00\"]", &d) == 0 && d);
  OK(!strcmp(wg_decode_str(db, wg_get_field(db, d, 0)), "\xef\xbf\xbf")); OK(!strcmp(wg_decode_str(db, wg_get_field(db, d, 1)), "\xe2\x82\xac"));
  OK(!strcmp(wg_decode_str(db, wg_get_field(db, d, 2)), "\xf0\x9f\x98\x80")); return 0; }"""),
dict(id="N01-comment-split", prop="N01", edits=[("json/yajl_all.c", """                    yajl_buf_clear(lexer->buf);
                    lexer->bufInUse = 0;
                    startOffset = *offset;""", """                    startOffset = *offset;""")],
  needs="a file with a comment that lies across the end of a read buffer", breaks="the rest of the comment becomes part of the next token: the file is refused or a wrong value stored",
  demo=r"""
#include "dbjson.h"
int main() { void *db = wg_attach_local_database(4000000), *d; OK(db); int i;
  FILE *f = fopen("t.json", "w"); OK(f); fputc('[', f); for(i = 0; i < 16000; i++) fputc(' ', f);
  fputs("/*", f); for(i = 0; i < 600; i++) fputc('x', f); fputs("*/ 4711]", f); fclose(f);
  OK(wg_parse_json_file(db, "t.json") == 0); d = wg_get_first_record(db); OK(d); OK(wg_get_record_len(db, d) == 1);
  OK(wg_decode_int(db, wg_get_field(db, d, 0)) == 4711); return 0; }"""),
dict(id="N02-unique-last", prop="N02", edits=[("Db/dbquery.c", """    while((offset = fetch_resultset(db, set))) {
      gint offsetu, found = 0;
      rewind_resultset(db, unique);
      while((offsetu = fetch_resultset(db, unique))) {
        if(offset == offsetu) {
          found = 1;
          break;
        }
      }
      if(!found) {""", """    gint last = 0;
    while((offset = fetch_resultset(db, set))) {
      gint found = (offset == last); /* equal rows are next to each other */
      last = offset;
      if(!found) {""")],
  needs="two matching pairs of one document that are not found next to each other", breaks="the document is returned twice",
  demo=r"""
#include "dbjson.h"
#include "dbquery.h"
int main() { void *db = wg_attach_local_database(4000000), *d = NULL, *e = NULL, *f = NULL; int n = 0; wg_json_query_arg a; wg_query *q; OK(db);
  OK(wg_parse_json_document(db, "{\"b\":0,\"a\":1}", &d) == 0 && d); OK(wg_parse_json_document(db, "{\"a\":1}", &e) == 0 && e);
  OK(wg_parse_json_fragment(db, "{\"a\":1}", &f) == 0 && f);
  OK(wg_set_field(db, wg_decode_record(db, wg_get_field(db, d, 0)), WG_SCHEMA_VALUE_OFFSET, wg_encode_record(db, f)) == 0);
  a.key = wg_encode_str(db, "a", NULL); a.value = wg_encode_int(db, 1);
  q = wg_make_json_query(db, &a, 1); OK(q); while(wg_fetch(db, q)) n++; OK(n == 2); return 0; }"""),
dict(id="N03-empty-child", prop="N03", edits=[("Db/dbschema.c", "    gint enc = wg_get_field(db, rec, i);\n    gint type = wg_get_encoded_type(db, enc);\n    if(type == WG_RECORDTYPE) {", "    gint enc = wg_get_field(db, rec, i);\n    gint type = wg_get_encoded_type(db, enc);\n    if(type == WG_RECORDTYPE && wg_get_record_len(db, wg_decode_record(db, enc)) > 0) {")],
  needs="an empty array or object inside the document", breaks="it stays in the database when the document is deleted",
  demo=r"""
#include "dbjson.h"
#include "dbschema.h"
int main() { void *db = wg_attach_local_database(1000000), *d = NULL; OK(db);
  OK(wg_parse_json_document(db, "{\"a\":[1,{}],\"b\":[]}", &d) == 0 && d); OK(wg_delete_document(db, d) == 0); OK(wg_get_first_record(db) == NULL); return 0; }"""),
]
