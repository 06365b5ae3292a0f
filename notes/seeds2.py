SEEDS = [
dict(id="I01-stale-min", prop="I01", edits=[("Db/dbindex.c", """    node->current_min = wg_get_field(db, (void *)offsettoptr(db,
      node->array_of_values[0]), column);
  }

  //check underflow""", """    gint newmin = wg_get_field(db, (void *)offsettoptr(db,
      node->array_of_values[0]), column);
    if(wg_get_encoded_type(db, newmin) != WG_INTTYPE ||
       WG_COMPARE(db, newmin, node->current_min) != WG_EQUAL)
      node->current_min = newmin;
  }

  //check underflow""")],
  needs="removing the first of two rows with an equal key that is stored separately for each field (an integer beyond 61 bits), then reusing its storage", breaks="the minimum of the node refers to storage of the removed record: rows are not found any more",
  demo=r"""
int main() { void *db = wg_attach_local_database(4000000); void *a, *b, *c; int i;
  OK(db); OK(!wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0));
  a = wg_create_record(db, 2); b = wg_create_record(db, 2); c = wg_create_record(db, 2);
  OK(!wg_set_int_field(db, a, 0, 5L<<60)); OK(!wg_set_int_field(db, b, 0, 5L<<60)); OK(!wg_set_int_field(db, c, 0, 7L<<60));
  { wg_int id = wg_column_to_index_id(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0);
    wg_index_header *h = (wg_index_header *) offsettoptr(db, id);
    struct wg_tnode *t = (struct wg_tnode *) offsettoptr(db, TTREE_ROOT_NODE(h));
    void *first = offsettoptr(db, t->array_of_values[0]), *other = first == a ? b : a;
    OK(!wg_delete_record(db, first));
    OK(!wg_set_int_field(db, c, 1, 6L<<60)); OK(!wg_set_int_field(db, other, 1, 6L<<60));
    OK(wg_decode_int(db, t->current_min) == 5L<<60);
    OK(wg_find_record(db, 0, WG_COND_EQUAL, wg_encode_int(db, 5L<<60), NULL) == other); }
  return 0; }"""),
]
