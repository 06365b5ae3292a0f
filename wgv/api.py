"""ctypes binding of the WhiteDB C API plus the observation shim (harness/shim.c)."""
import ctypes as C, os, struct
G, P, D, I, S = C.c_ssize_t, C.c_void_p, C.c_double, C.c_int, C.c_char_p
ILLEGAL = 0xff
NULLT, REC, INT, DBL, STR, XML, URI, BLOB, CHAR, FIX, DATE, TIME, ANON, VAR = range(1, 15)
EQ, NE, LT, GT, LE, GE = 1, 2, 4, 8, 0x10, 0x20
TTREE, TTREE_JSON, HASH, HASH_JSON = 50, 51, 60, 61

class QArg(C.Structure):
    _fields_ = [("column", G), ("cond", G), ("value", G)]
class JArg(C.Structure):
    _fields_ = [("key", G), ("value", G)]

SIG = {
 "wg_attach_local_database": (P, [G]), "wg_delete_local_database": (None, [P]),
 "wg_attach_database": (P, [S, G]), "wg_attach_existing_database": (P, [S]),
 "wg_attach_logged_database": (P, [S, G]), "wg_attach_database_mode": (P, [S, G, I]),
 "wg_attach_memsegment": (P, [S, G, G, I, I, I]), "wg_attach_logged_database_mode": (P, [S, G, I]),
 "wg_memmode": (I, [P]), "wg_memowner": (I, [P]), "wg_memgroup": (I, [P]),
 "wg_detach_database": (I, [P]), "wg_delete_database": (I, [S]),
 "wg_database_freesize": (G, [P]), "wg_database_size": (G, [P]),
 "wg_create_record": (P, [P, G]), "wg_create_raw_record": (P, [P, G]), "wg_delete_record": (G, [P, P]),
 "wg_get_first_record": (P, [P]), "wg_get_next_record": (P, [P, P]),
 "wg_get_first_raw_record": (P, [P]), "wg_get_next_raw_record": (P, [P, P]),
 "wg_get_first_parent": (P, [P, P]), "wg_get_next_parent": (P, [P, P, P]),
 "wg_get_record_len": (G, [P, P]), "wg_get_record_dataarray": (P, [P, P]),
 "wg_set_field": (G, [P, P, G, G]), "wg_set_new_field": (G, [P, P, G, G]),
 "wg_set_int_field": (G, [P, P, G, G]), "wg_set_double_field": (G, [P, P, G, D]), "wg_set_str_field": (G, [P, P, G, S]),
 "wg_update_atomic_field": (G, [P, P, G, G, G]), "wg_set_atomic_field": (G, [P, P, G, G]),
 "wg_add_int_atomic_field": (G, [P, P, G, I]),
 "wg_get_field": (G, [P, P, G]), "wg_get_field_type": (G, [P, P, G]),
 "wg_get_encoded_type": (G, [P, G]), "wg_free_encoded": (G, [P, G]),
 "wg_encode_null": (G, [P, G]), "wg_encode_int": (G, [P, G]), "wg_decode_int": (G, [P, G]),
 "wg_encode_double": (G, [P, D]), "wg_decode_double": (D, [P, G]),
 "wg_encode_fixpoint": (G, [P, D]), "wg_decode_fixpoint": (D, [P, G]),
 "wg_encode_date": (G, [P, I]), "wg_decode_date": (I, [P, G]),
 "wg_encode_time": (G, [P, I]), "wg_decode_time": (I, [P, G]),
 "wg_strf_iso_datetime": (I, [P, I, I, P]), "wg_strp_iso_date": (I, [P, S]), "wg_strp_iso_time": (I, [P, S]),
 "wg_ymd_to_date": (I, [P, I, I, I]), "wg_hms_to_time": (I, [P, I, I, I, I]),
 "wg_date_to_ymd": (None, [P, I, P, P, P]), "wg_time_to_hms": (None, [P, I, P, P, P, P]),
 "wg_current_utcdate": (I, [P]), "wg_current_localdate": (I, [P]), "wg_current_utctime": (I, [P]), "wg_current_localtime": (I, [P]),
 "wg_encode_str": (G, [P, S, S]), "wg_encode_xmlliteral": (G, [P, S, S]), "wg_encode_uri": (G, [P, S, S]),
 "wg_encode_blob": (G, [P, S, S, G]), "wg_encode_record": (G, [P, P]), "wg_decode_record": (P, [P, G]),
 "wg_encode_char": (G, [P, C.c_char]), "wg_decode_char": (C.c_char, [P, G]),
 "wg_encode_var": (G, [P, G]), "wg_decode_var": (G, [P, G]),
 "wg_dump": (G, [P, S]), "wg_import_dump": (G, [P, S]), "wg_check_dump": (G, [P, S, P, P]),
 "wg_start_logging": (G, [P]), "wg_stop_logging": (G, [P]), "wg_replay_log": (G, [P, S]),
 "wg_start_write": (G, [P]), "wg_end_write": (G, [P, G]), "wg_start_read": (G, [P]), "wg_end_read": (G, [P, G]),
 "wg_snprint_value": (None, [P, G, P, I]), "wg_parse_and_encode": (G, [P, S]), "wg_parse_and_encode_param": (G, [P, S]),
 "wg_export_db_csv": (None, [P, S]), "wg_import_db_csv": (G, [P, S]),
 "wg_make_query": (P, [P, P, G, P, G]), "wg_make_query_rc": (P, [P, P, G, P, G, C.c_size_t]),
 "wg_make_json_query": (P, [P, P, G]),
 "wg_fetch": (P, [P, P]), "wg_free_query": (None, [P, P]),
 "wg_encode_query_param_null": (G, [P, S]), "wg_encode_query_param_record": (G, [P, P]),
 "wg_encode_query_param_char": (G, [P, C.c_char]), "wg_encode_query_param_fixpoint": (G, [P, D]),
 "wg_encode_query_param_date": (G, [P, I]), "wg_encode_query_param_time": (G, [P, I]),
 "wg_encode_query_param_var": (G, [P, G]), "wg_encode_query_param_int": (G, [P, G]),
 "wg_encode_query_param_double": (G, [P, D]), "wg_encode_query_param_str": (G, [P, S, S]),
 "wg_encode_query_param_xmlliteral": (G, [P, S, S]), "wg_encode_query_param_uri": (G, [P, S, S]),
 "wg_free_query_param": (G, [P, G]),
 "wg_find_record": (P, [P, G, G, G, P]), "wg_find_record_int": (P, [P, G, G, I, P]),
 "wg_find_record_str": (P, [P, G, G, S, P]), "wg_find_record_double": (P, [P, G, G, D, P]),
 "wg_find_record_null": (P, [P, G, G, S, P]), "wg_find_record_char": (P, [P, G, G, C.c_char, P]),
 "wg_find_record_fixpoint": (P, [P, G, G, D, P]), "wg_find_record_date": (P, [P, G, G, I, P]),
 "wg_find_record_time": (P, [P, G, G, I, P]), "wg_find_record_var": (P, [P, G, G, G, P]),
 "wg_find_record_xmlliteral": (P, [P, G, G, S, S, P]), "wg_find_record_uri": (P, [P, G, G, S, S, P]),
 "wg_find_record_record": (P, [P, G, G, P, P]),
 "wg_register_external_db": (G, [P, P]), "wg_encode_external_data": (G, [P, P, G]), "wg_get_rec_owner": (P, [P, P]),
 "wg_parse_json_file": (G, [P, S]), "wg_check_json": (G, [P, S]), "wg_parse_json_document": (G, [P, S, P]),
 "wg_parse_json_fragment": (G, [P, S, P]), "wg_parse_json_param": (G, [P, S, P]), "wg_delete_document": (G, [P, P]),
 "wg_find_document": (P, [P, P]), "wg_create_array": (P, [P, G, G, G]), "wg_create_object": (P, [P, G, G, G]),
 "wg_create_kvpair": (P, [P, G, G, G]), "wg_create_triple": (P, [P, G, G, G, G]),
 "wg_create_index": (G, [P, G, G, P, G]), "wg_create_multi_index": (G, [P, P, G, G, P, G]),
 "wg_drop_index": (G, [P, G]), "wg_column_to_index_id": (G, [P, G, G, P, G]),
 "wg_multi_column_to_index_id": (G, [P, P, G, G, P, G]), "wg_get_index_type": (G, [P, G]),
 "wg_get_index_template": (P, [P, G, P]), "wg_get_all_indexes": (P, [P, P]),
 "wg_search_hash": (G, [P, G, P, G]),
 "wg_set_error_callback": (I, [P]), "wg_check_header_compat": (I, [P]),
 "wg_create_mpool": (P, [P, G]), "wg_alloc_mpool": (P, [P, P, G]), "wg_free_mpool": (None, [P, P]),
 "vh_compare": (G, [P, G, G]), "vh_compare_depth": (G, [P, G, G, G]), "vh_offset": (G, [P, P]), "vh_ptr": (P, [P, G]),
 "vh_meta": (G, [P, P]), "vh_seg_free": (G, [P]), "vh_seg_size": (G, [P]), "vh_seg_base": (P, [P]), "vh_hdr_size": (G, []),
 "vh_is_longstr": (G, [G]), "vh_log_active": (G, [P]), "vh_log_dirty": (G, [P]), "vh_num_indexes": (G, [P]),
 "vh_lock_area": (G, [P]), "vh_refcount": (G, [P, G]), "vh_extrastr": (G, [P, G]),
 "vh_subareas": (G, [P, G, P, G]), "vh_objects": (G, [P, G, P, G]), "vh_buckets": (G, [P, G, P, G]),
 "vh_bucket_of": (G, [P, G]), "vh_fixfree": (G, [P, G, P, G]), "vh_objlength": (G, [P, G]),
 "vh_ttree": (G, [P, G, P, G]), "vh_hashidx": (G, [P, G, P, G]), "vh_strhash": (G, [P, P, G]),
 "vh_backlinks": (G, [P, P, P, G]), "vh_allrecs": (G, [P, P, G]), "vh_index_cols": (G, [P, G, P, G]),
"vh_guard_new": (P, [G]), "vh_guard_free": (None, [P]),
 "vh_alloc": (G, [P, G, G]), "vh_release": (G, [P, G, G]), "vh_falloc": (G, [P, G]), "vh_frelease": (None, [P, G, G]),
 "vh_free": (None, [P]), "vh_query_count": (G, [P]), "vh_query_type": (G, [P]),
}
for _t in ("str", "xmlliteral", "uri", "blob"):
    SIG["wg_decode_%s" % _t] = (P, [P, G])
    SIG["wg_decode_%s_len" % _t] = (G, [P, G])
    SIG["wg_decode_%s_copy" % _t] = (G, [P, G, P, G])
for _t in ("str_lang", "xmlliteral_xsdtype", "uri_prefix", "blob_type"):
    SIG["wg_decode_%s" % _t] = (P, [P, G])
    SIG["wg_decode_%s_len" % _t] = (G, [P, G])
    SIG["wg_decode_%s_copy" % _t] = (G, [P, G, P, G])

class Lib:
    def __init__(self, path):
        self.dll = C.CDLL(path)
        for n, (r, a) in SIG.items():
            try: f = getattr(self.dll, n)
            except AttributeError: continue
            f.restype = r; f.argtypes = a
            setattr(self, n[3:] if n.startswith("wg_") else n, f)
        self.buf = (G * 400000)()
    def arr(self, fn, *args):
        """call a shim function that fills the gint buffer -> list, or None if it reported corruption"""
        n = fn(*args, self.buf, len(self.buf))
        if n < 0: return None
        if n > len(self.buf):
            self.buf = (G * (n * 2))()
            n = fn(*args, self.buf, len(self.buf))
        return list(self.buf[:n])
    def cstr(self, p, n=None):
        if not p: return None
        if n is not None and not 0 <= n < 1 << 28: raise ValueError("length %d" % n)
        return C.string_at(p, n) if n is not None else C.string_at(p)

# ---- value tokens ------------------------------------------------------------------------------
# ('n',) ('i',int) ('d',bits) ('f',tenthousandths) ('c',byte) ('D',days) ('T',hundredths) ('v',n)
# ('s',bytes,lang) ('x',bytes,xsd) ('u',bytes,prefix) ('b',bytes,type) ('r',handle)
TYPE = dict(n=NULLT, r=REC, i=INT, d=DBL, s=STR, x=XML, u=URI, b=BLOB, c=CHAR, f=FIX, D=DATE, T=TIME, v=VAR)
def dbits(x): return struct.unpack("<Q", struct.pack("<d", x))[0]
def bitsd(b): return struct.unpack("<d", struct.pack("<Q", b))[0]

def limbs(u):  # unsigned 64 -> 4 ints, most significant first
    return [(u >> 48) & 0xffff, (u >> 32) & 0xffff, (u >> 16) & 0xffff, u & 0xffff]
def key(v):
    """order key of a value: type code, then numbers compared lexicographically (spec: Values.tla)"""
    t = v[0]; k = [TYPE[t]]
    if t == 'i': k += limbs(v[1] + (1 << 63))
    elif t == 'd':
        b = v[1]
        if b == 1 << 63: b = 0                        # -0.0 = 0.0
        if (b & 0x7fffffffffffffff) > 0x7ff0000000000000: k += [1 << 20]   # NaN: one class above all numbers
        else: k += limbs(b ^ (0xffffffffffffffff if b >> 63 else 1 << 63))
    elif t in 'fDTv': k += [v[1] + (1 << 29)] if t != 'v' else limbs(v[1] + (1 << 63))
    elif t == 'c': k += [v[1]]
    elif t == 's': k += list(v[1])
    elif t == 'b': k += list(v[1])
    elif t in 'xu': k += list(v[2] or b"") + [0] + list(v[1])
    return k

class Db:
    """a database of a Lib with value encode/decode; keeps no model of the contents"""
    def __init__(self, lib, db): self.L, self.db = lib, db
    def encode(self, v, ptr=None, param=False):
        """-> encoded gint or ILLEGAL"""
        L, db, t = self.L, self.db, v[0]
        if param:
            e = L.encode_query_param_null, L.encode_query_param_int, L.encode_query_param_double, L.encode_query_param_fixpoint, \
                L.encode_query_param_char, L.encode_query_param_date, L.encode_query_param_time, L.encode_query_param_var, \
                L.encode_query_param_str, L.encode_query_param_xmlliteral, L.encode_query_param_uri, L.encode_query_param_record
        else:
            e = L.encode_null, L.encode_int, L.encode_double, L.encode_fixpoint, L.encode_char, L.encode_date, L.encode_time, \
                L.encode_var, L.encode_str, L.encode_xmlliteral, L.encode_uri, L.encode_record
        if t == 'n': return e[0](db, None if param else 0)
        if t == 'i': return e[1](db, v[1])
        if t == 'd': return e[2](db, bitsd(v[1]))
        if t == 'f': return e[3](db, v[1] / 10000.0)
        if t == 'c': return e[4](db, bytes([v[1]]))
        if t == 'D': return e[5](db, v[1])
        if t == 'T': return e[6](db, v[1])
        if t == 'v': return e[7](db, v[1])
        if t == 's': return e[8](db, v[1], v[2])
        if t == 'x': return e[9](db, v[1], v[2])
        if t == 'u': return e[10](db, v[1], v[2])
        if t == 'r': return e[11](db, ptr)
        if t == 'b': return L.encode_blob(db, v[1], v[2], len(v[1]))
        raise ValueError(v)
    def decode(self, enc):
        L, db = self.L, self.db
        t = L.get_encoded_type(db, enc)
        if t == NULLT: return ('n',)
        if t == INT: return ('i', L.decode_int(db, enc))
        if t == DBL: return ('d', dbits(L.decode_double(db, enc)))
        if t == FIX: return ('f', round(L.decode_fixpoint(db, enc) * 10000))
        if t == CHAR: return ('c', L.decode_char(db, enc)[0])
        if t == DATE: return ('D', L.decode_date(db, enc))
        if t == TIME: return ('T', L.decode_time(db, enc))
        if t == VAR: return ('v', L.decode_var(db, enc))
        if t == STR: return ('s', L.cstr(L.decode_str(db, enc)), L.cstr(L.decode_str_lang(db, enc)))
        if t == XML: return ('x', L.cstr(L.decode_xmlliteral(db, enc)), L.cstr(L.decode_xmlliteral_xsdtype(db, enc)))
        if t == URI: return ('u', L.cstr(L.decode_uri(db, enc)), L.cstr(L.decode_uri_prefix(db, enc)))
        if t == BLOB: return ('b', L.cstr(L.decode_blob(db, enc), L.decode_blob_len(db, enc)), L.cstr(L.decode_blob_type(db, enc)))
        if t == REC: return ('r', L.decode_record(db, enc))
        return ('?', t)
def show(v):
    return " ".join(x.decode("latin1") if isinstance(x, bytes) else str(x) for x in v)
