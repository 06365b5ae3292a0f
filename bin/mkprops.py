#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list can be edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mechanism, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=s, meaning=s, where=files[-1] if files[-1].endswith('.h') else files[0]) for s in state if s != '-'],
        mechanism=[dict(name=m, where=files[0]) for m in mechanism], observe_at=observe,
        hook_needed=hook or None)))

prop("S01", "Records hold exactly what was last written to them",
 "After any history of record creation, deletion, field writes and value frees, every live record keeps its length and every one of its fields reads back the last value written to it (NULL if never written), and no operation on one record changes another. Writes and reads outside a record's length, first-time writes to a field that is already set, and use of invalid arguments are refused with an error and change nothing.",
 ["histories","inputs"], "all histories of create/delete/set/get/first-set calls over all record lengths and value types, including reuse of freed storage",
 "The tests write a fixed set of records once and read them back; interference appears only after particular alloc/free/overwrite histories and at size-class boundaries.",
 ["Db/dbdata.c","Db/dballoc.c","Db/dbdata.h"], ["record area","long string area","fixed-length cell areas"], ["field write with release of the old value","record allocation and free"], ["wg_create_record","wg_create_raw_record","wg_set_field","wg_set_new_field","wg_get_field","wg_get_record_len","wg_delete_record"])

prop("S02", "A scan visits every live record exactly once and nothing else",
 "Starting from the first record and repeatedly asking for the next one visits each live record exactly once and never visits a deleted record or any other stored object, whatever the history of insertions, deletions and database growth. Parent enumeration and record scans always terminate.",
 ["histories"], "all histories of record creation/deletion of mixed lengths, string allocation/deletion and segment growth",
 "The tests scan a freshly filled database; holes, coalesced free blocks, the partially used tail of an area and several sub-areas only arise from longer histories.",
 ["Db/dbdata.c","Db/dballoc.c"], ["record sub-areas","object headers"], ["boundary-tag walk over record sub-areas"], ["wg_get_first_record","wg_get_next_record","wg_get_first_raw_record","wg_get_next_raw_record"])

prop("V01", "Values decode to exactly what was encoded, in every type",
 "For each data type, decoding an encoded value gives back the same type, value, length and extra data (language, XSD type, URI prefix) for every input in that type's documented range, and inputs outside the range are refused with an error. Two encodings of equal values of an interned type are the same stored object, and copying decoders never write past the buffer they are given.",
 ["inputs","histories"], "all integers, doubles, fixpoints, dates, times, characters, variables, strings/URIs/XML literals/blobs of any length with and without extra data, in any order of encoding and freeing",
 "The tests encode a few dozen hand-picked values; boundary values (small/full integers, 31/32-byte strings, prefix strings, bucket collisions) are not enumerated.",
 ["Db/dbdata.c","Db/dbdata.h","Db/dbhash.c"], ["encoded value representation","interned string table"], ["immediate/pointer encoding choice","string interning by type, bytes and extra"], ["wg_encode_*","wg_decode_*","wg_get_encoded_type"])

prop("V02", "Shared stored values live exactly as long as they are used",
 "A stored long string (or URI, XML literal, blob, and the extra string it uses) stays intact as long as at least one field, or an index or another string, uses it, and is reclaimed when the last use is overwritten or deleted. Freeing an encoded value that is in use by a record is harmless, and deleting everything returns all storage that the deleted data used.",
 ["histories"], "all histories of set/overwrite/delete/free over records sharing string values, including strings whose extra data is itself shared",
 "Reference-count mistakes appear only for specific orders of sharing, overwriting and freeing; tests check a few straight-line cases.",
 ["Db/dbdata.c","Db/dbhash.c"], ["reference counts of long strings","string hash chains"], ["increment on field set","decrement and removal from hash chain on release"], ["wg_set_field","wg_delete_record","wg_free_encoded","wg_database_freesize"])

prop("B01", "Parent links equal the reverse of reference fields; deletes respect them",
 "For every record, enumerating its parents yields exactly the live records whose fields refer to it. Deleting a record succeeds exactly when no record refers to it, removes its own references to others, and a refused deletion changes nothing.",
 ["histories"], "all histories of setting, overwriting and clearing reference fields (also self references and several references from one record) and deletions",
 "Tests build one small parent/child structure; the order in which links are added and removed is what breaks a linked list of back links.",
 ["Db/dbdata.c"], ["per-record list of referring records"], ["back-link insertion and removal on field write and record delete"], ["wg_set_field","wg_delete_record","wg_get_first_parent","wg_get_next_parent"])

prop("C01", "Value comparison is one total order consistent with equality",
 "Comparing any two stored values is antisymmetric, transitive and total, and reports equality exactly for values that are equal: numbers in numeric order, dates and times chronologically, strings bytewise, records first by length and then field by field, and different types in one fixed type order. Depth-limited record comparison looks exactly as deep as requested.",
 ["inputs"], "all pairs and triples of values over all types, including boundary integers, zeros, infinities, strings with shared prefixes and embedded extra data, and nested and cyclic records",
 "Tests compare a few same-type pairs; order axioms quantify over triples and indexes silently rely on them.",
 ["Db/dbcompare.c","Db/dbcompare.h"], ["-"], ["type-code ordering, then type-specific comparison"], ["WG_COMPARE","wg_compare","wg_make_query"])

prop("I01", "A T-tree index holds exactly the indexed records, in order and balanced",
 "At every moment a T-tree index contains exactly one entry for every live record that has the indexed column (and matches the index's template, if any), and its nodes form a valid T-tree: entries ordered inside and between nodes, correct minimum/maximum and neighbour links, balanced subtree heights, no overfull or empty nodes. A failed or refused update leaves the index matching the data.",
 ["histories"], "all histories of record insert, field update, delete and index create/drop over all key types, duplicates, and single, template and multi-column indexes",
 "Rotations, merges and borrowing depend on exact occupancy patterns built up over many operations; the tests use a handful of insertion orders.",
 ["Db/dbindex.c","Db/dbindex.h","Db/dbdata.c"], ["T-tree nodes","index header","index template table"], ["insert with overflow to GLB, removal with underflow borrowing/merging, AVL rotations"], ["wg_create_index","wg_set_field","wg_delete_record","wg_make_query","wg_find_record"])

prop("I02", "A hash index finds exactly the records with the searched key",
 "At every moment searching a hash index for a combination of column values returns exactly the live records holding those values in the indexed columns (and no stale, missing or duplicate ones), whatever the history of inserts, updates and deletes; records without one of the indexed columns are not in it.",
 ["histories"], "all histories of inserts, updates, deletes over single- and multi-column hash indexes, with hash collisions and duplicate keys",
 "The tests cover one insertion order on one or two columns; collisions, duplicate keys and short records are not enumerated.",
 ["Db/dbhash.c","Db/dbindex.c"], ["hash buckets and row lists"], ["removal before and insertion after each field change"], ["wg_create_multi_index","wg_search_hash"])

prop("I03", "The index catalogue matches the indexes that were created and dropped",
 "Creating an index succeeds exactly when its columns and type are supported and no equal index exists, and dropping one removes it entirely; after any history, looking up an index by columns, type and template and listing all indexes report exactly the existing ones. A refused create or drop has no effect on later writes, queries or the catalogue.",
 ["histories","inputs"], "all histories of index create/drop/lookup with every type, column set, template and invalid argument",
 "The tests create and drop each index kind once; the catalogue lists are only wrong after particular sequences and error paths.",
 ["Db/dbindex.c","Db/dbindex.h"], ["index control area: per-column lists, list of indexes, template table"], ["list insertion/removal on create/drop"], ["wg_create_index","wg_create_multi_index","wg_drop_index","wg_column_to_index_id","wg_get_index_type","wg_get_all_indexes"])

prop("Q01", "A query returns exactly the rows that satisfy its conditions",
 "Fetching a query to the end returns each live record satisfying all its conditions (and its match record) exactly once and no others, whatever indexes exist, for every combination of conditions, value types and row lengths. The results do not depend on which indexes exist or on storage reuse, and a query that no row satisfies returns nothing.",
 ["inputs","configurations","histories"], "all condition lists over all operators and value types, all match records, all index configurations, all table contents",
 "Tests run queries on a small number of fixed tables; range bounds on duplicates, contradictory and duplicate conditions and index selection create a large combination space.",
 ["Db/dbquery.c","Db/dbindex.c","Db/dbcompare.c"], ["query object","prefetched result pages"], ["index selection, bound location in the T-tree, residual filtering"], ["wg_make_query","wg_make_query_rc","wg_fetch","wg_free_query"])

prop("Q02", "Prefetched query results are a stable snapshot, row limits are honoured",
 "A built query reports the number of rows it will return and then returns exactly that many: all matching rows, or as many as the row limit allows, each of them matching. Writes made after the query was built neither add nor remove rows, and building, fetching and freeing queries and their parameters never changes the stored data.",
 ["histories","inputs"], "all interleavings of query building, fetching, freeing with data changes, all row limits and result sizes across result-page boundaries",
 "The tests fetch a query immediately and completely; partial fetches, page boundaries and writes in between are not covered.",
 ["Db/dbquery.c","Db/dbmpool.c"], ["prefetched result pages","query parameter values"], ["result-set paging in a memory pool"], ["wg_make_query","wg_make_query_rc","wg_make_prefetch_query","wg_fetch","wg_encode_query_param_*","wg_free_query"])

prop("Q03", "Single-record search walks exactly the matching records",
 "Repeatedly searching for the next record whose column satisfies a comparison with a value visits every live record that satisfies it exactly once and then reports the end, for every operator and value type, with or without an index on the column.",
 ["inputs","configurations"], "all operators, value types, table contents and index configurations",
 "Only a few search calls with integers are tested; the indexed and scanning paths are separate code.",
 ["Db/dbquery.c"], ["T-tree nodes","record area"], ["index walk or scan from the last record"], ["wg_find_record","wg_find_record_int","wg_find_record_str"])

prop("A01", "Storage blocks never overlap and no storage is lost",
 "At every moment the allocated objects of a database and its free blocks partition the storage of each area: no two overlap, none lies outside the segment, and the free-space bookkeeping agrees with the blocks themselves. Everything allocated belongs to a live record, value, link or index. Freed storage becomes available again and adjacent free blocks are merged, so after everything is deleted each sub-area is one free block again.",
 ["histories"], "all histories of allocating and freeing objects of all size classes, including area extension",
 "Corruption needs particular neighbour/size-class patterns; the tests only run one random alloc/free loop.",
 ["Db/dballoc.c","Db/dballoc.h"], ["free-list buckets","boundary tags","designated victim","sub-area table","segment high-water mark"], ["split, coalesce, designated-victim carving, sub-area extension"], ["wg_create_record","wg_delete_record","wg_set_field","wg_database_freesize"])

prop("A02", "Running out of space fails the operation and damages nothing",
 "When the database has no room for a new record, value, back link or index entry, the operation reports an error; all data that was stored before stays intact and readable, and after space is freed the database works again. No operation ever writes outside the segment.",
 ["fault_sequences","histories"], "every allocation point in every operation failing, at every fill level of the segment",
 "The tests never fill a segment; each allocation site has its own, otherwise unreachable, failure path.",
 ["Db/dballoc.c","Db/dbdata.c","Db/dbindex.c","Db/dbhash.c","Db/dbschema.c"], ["segment free space"], ["error returns of allocation functions"], ["wg_create_record","wg_set_field","wg_encode_str","wg_create_index","wg_attach_local_database"])

prop("L01", "Database lock: writers are exclusive, readers exclude writers",
 "With every locking protocol, while a process holds the write lock no other process holds a read or write lock, and while any process holds a read lock no process holds the write lock, for every interleaving of acquisition, release, timeout and interrupted waiting.",
 ["schedules","fault_sequences"], "all interleavings of any number of readers and writers at the granularity of individual memory accesses, with timeouts, spurious wake-ups and interrupted waits, for all three protocols",
 "The tests take locks from one process and thread pools that sample a few schedules; violations need a particular interleaving.",
 ["Db/dblock.c","Db/dblock.h"], ["global lock word","writer count","lock queue and its cells"], ["atomic flag/counter updates; queue under a spin lock with futex wake-up"], ["wg_start_write","wg_end_write","wg_start_read","wg_end_read"])

prop("L02", "Lock requests finish: every waiter is granted or times out, nothing stays stuck",
 "A waiting lock request is granted once the conflicting holders have released, unless it times out first, and a timed-out request leaves no trace: after all holders have released, every remaining and later request is granted. No release is lost and no two waiters block each other forever.",
 ["schedules","fault_sequences"], "all interleavings of acquire, release and timeout of any number of readers and writers, for all three protocols",
 "Lost wake-ups and abandoned queue entries only appear in specific races between release and timeout.",
 ["Db/dblock.c"], ["lock queue cells and their links","free list of queue cells","lock words"], ["dequeue and hand-over to the successor; timeout removal"], ["wg_start_write","wg_start_read","wg_end_write","wg_end_read","wg_set_lock_timeout"])

prop("L03", "Queued locking is fair: nobody is overtaken by a conflicting later request",
 "With the task-fair queue protocol, a request that is already waiting is granted before any conflicting request that arrives after it, so neither readers nor writers starve; and with the writer-preference protocol a waiting writer is not overtaken by readers that arrive after it.",
 ["schedules"], "all arrival orders and interleavings of readers and writers",
 "Order of grants under contention is never asserted by a test.",
 ["Db/dblock.c"], ["lock queue","waiting-writers count"], ["FIFO queue; readers wait for announced writers"], ["wg_start_write","wg_start_read"])

prop("L04", "Atomic field operations never lose or invent updates",
 "Lock-free field updates (set, add, compare-and-set) by concurrent processes behave as if executed one at a time: the final value and each reported success or failure are explained by some order of the calls, and an operation that is refused (wrong type, value not storable in place, indexed or shared field) changes nothing.",
 ["schedules","inputs"], "all interleavings of concurrent atomic updates on the same field, all immediate values",
 "The tests call the atomic operations from one thread.",
 ["Db/dbdata.c"], ["one record field"], ["compare-and-swap loops on the field word"], ["wg_update_atomic_field","wg_set_atomic_field","wg_add_int_atomic_field"])

prop("D01", "A dump restores the identical database",
 "Importing a dump reproduces exactly the records, values, references, indexes and schema of the database at the moment of the dump, both into the same and into another segment at least as large, and the restored database keeps working; dumping does not change the database. A dump taken while others write contains a state that existed between complete write transactions.",
 ["histories","schedules"], "all database states, all target segment sizes, concurrent writers",
 "The tests dump one state and compare a few values; address-dependent state and later operability are not checked.",
 ["Db/dbdump.c","Db/dbmem.c"], ["whole segment image","dump file"], ["image write under lock with checksum; import with lock and log reinitialisation"], ["wg_dump","wg_import_dump","wg_check_dump"])

prop("D02", "A damaged or unsuitable dump is refused without touching the database",
 "Checking and then importing a dump file (the documented procedure) refuses with an error every file that is missing, truncated, extended, corrupted in any byte or written by an incompatible version, and every dump that does not fit, and leaves the current database exactly as it was. A dump that fails to be written reports an error.",
 ["inputs","crash_points","fault_sequences"], "every truncation point and every corrupted byte of a dump file, incompatible versions and sizes, lock and file errors",
 "The tests import only good dumps.",
 ["Db/dbdump.c","Db/dbmem.c","Db/crc1.h"], ["dump header and checksum"], ["header check, size check, CRC check before the copy"], ["wg_import_dump","wg_check_dump","wg_dump"])

prop("J01", "Replaying the journal reproduces the logged database",
 "With logging on, replaying the journal into an empty database (or into the database restored from the dump that preceded it) yields a database equal to the logged one up to record addresses: same records, values, references and special record markings, for every history of operations of every data type, including operations refused because the database or the disk of the journal had no room: these change neither the data nor what the journal leads to. Logging itself never changes results of operations.",
 ["histories","inputs"], "all histories of creates, writes, deletes, encodes of all value types, atomic updates and index or document operations made while logging",
 "The tests replay one short fixed history; each operation and value type has its own log format and replay path.",
 ["Db/dblog.c","Db/dbdata.c","Db/dbjson.c"], ["journal file","old-to-new address translation"], ["log record before the change, replay with address translation"], ["wg_start_logging","wg_stop_logging","wg_replay_log"])

prop("J02", "A journal cut at any point replays a prefix; a broken one is refused",
 "After a crash at any point, replaying the journal gives the state after some prefix of the logged operations that includes every operation completed before the crash and never a state that did not exist. A journal that ends inside an entry, has an invalid header or contains an unknown entry is detected and reported, and replaying it does not crash.",
 ["crash_points","inputs"], "every byte-level truncation of the journal of any history, invalid headers, unknown entries",
 "Tests never truncate or corrupt the journal.",
 ["Db/dblog.c"], ["journal file"], ["entry-at-a-time append and replay"], ["wg_replay_log"])

prop("J03", "Journal rotation and dump keep every committed change recoverable",
 "At every moment the most recent dump together with the current journal, or with the backups kept before it, reproduces the current database: starting logging preserves an existing journal that is still needed, a dump makes the journal restart exactly from the dumped state, and a failed dump or a refused replay keeps logging as it was.",
 ["histories","crash_points"], "all sequences of start/stop logging, dump, import, replay and crashes",
 "Tests exercise one start/stop and one replay.",
 ["Db/dblog.c","Db/dbdump.c"], ["journal file and its numbered backups","dirty and active flags"], ["rename-based rotation","stop/restart logging around dump and import"], ["wg_start_logging","wg_stop_logging","wg_dump","wg_import_dump","wg_replay_log"])

prop("E01", "References to records of a registered database keep both sides intact",
 "With child databases, a field can refer to a record or value of another database exactly when that database was registered, the reference reads back as the same record or value, and operations on one database never modify the other. Records of another database are refused where only local records are allowed, and local parent links and value lifetimes stay exact. A registration that is not possible (a database with indexes, the table full) is refused, and so are indexes in and dumps of a database that has registered others.",
 ["histories","configurations"], "all histories over two or more databases with cross-database references, overwrites and deletions",
 "Tests cover one parent/child pair with a few references.",
 ["Db/dbdata.c","Db/dbmem.c","Db/dballoc.c"], ["external database table","encoded external references"], ["offset translation between database bases","ownership test on set and delete"], ["wg_register_external_db","wg_encode_external_data","wg_set_field","wg_get_rec_owner"])

prop("N01", "A parsed JSON text is stored as the value it denotes",
 "Parsing a JSON text of the supported kind (an array or object, comments allowed, integers below 2^63 in magnitude, no booleans) stores exactly one document whose arrays, objects, keys and values, in order, are those of the text, and printing the document gives a text that denotes the same value. wg_check_json and wg_parse_json_file refuse a text that is malformed, nested too deeply or holds numbers out of range, leaving no trace in the database; the other parsing functions report such a text as failed and leave all earlier data as it was.",
 ["inputs","histories"], "all JSON texts up to the nesting limit, valid and invalid, parsed in any buffer sizes and any database state",
 "Tests parse a handful of documents.",
 ["Db/dbjson.c","Db/dbschema.c","json/yajl_all.c"], ["document records, key-value triples","parser stack"], ["streaming parser callbacks building records"], ["wg_parse_json_document","wg_parse_json_file","wg_parse_json_fragment","wg_parse_json_param","wg_check_json","wg_print_json_document"])

prop("N02", "A document query returns exactly the documents containing all the pairs",
 "A document query returns each stored top-level document that contains, at any nesting level, every key-value pair asked for, exactly once and no others (a pair matches when its key and its value, literal or nested, are equal to the stored ones, compared in order down to the comparison depth of 7), with or without a document index and after any history of adding, changing and deleting documents.",
 ["inputs","configurations","histories"], "all document sets, argument lists and index configurations",
 "Tests query three or four documents.",
 ["Db/dbquery.c","Db/dbhash.c","Db/dbjson.c"], ["document index","back links"], ["index lookup or scan, then intersection of document lists"], ["wg_make_json_query","wg_fetch"])

prop("N03", "Deleting a document removes it completely and nothing else",
 "Deleting a document removes all records that belong to it and no others, from the data and from every index, and returns their storage; a deletion that is refused (not a document, still referenced from elsewhere, an inner record referenced from outside, nested deeper than the limit) changes nothing.",
 ["histories","inputs"], "all documents, sharing patterns and histories",
 "Tests delete one document.",
 ["Db/dbschema.c","Db/dbjson.c","Db/dbdata.c"], ["document records"], ["recursive removal of referenced records"], ["wg_delete_document"])

prop("M01", "All processes attached to a shared database see the same data",
 "Attaching by name gives every process the same database with the same contents, a change made under the write lock by one process is seen by every process that locks afterwards, and attaching, detaching or crashing of one process does not change the data. A database exists until it is deleted, under the name and with the size and permissions it was created with; attaching to one that is not completely created, smaller than asked for, of another version or feature set, without permission, or without the journal that was asked for is refused and leaves nothing behind.",
 ["schedules","configurations","histories"], "all histories of attach, detach, delete and locked access by several processes with differing parameters",
 "Tests attach once from one process.",
 ["Db/dbmem.c","Db/dballoc.c"], ["shared memory segment","segment header"], ["segment lookup/creation, header compatibility check"], ["wg_attach_database","wg_attach_existing_database","wg_attach_logged_database","wg_detach_database","wg_delete_database"])

prop("T01", "Dates and times convert consistently and invalid ones are refused",
 "Conversion between a date and its day number is a bijection that follows the Gregorian calendar day by day over the supported range, time of day likewise in hundredths of a second; printing and parsing an ISO date, time or timestamp are inverse, and dates (years 1 to 22788) or times (up to 24:00:00.00, the end of the day) that do not exist are refused.",
 ["inputs"], "all days of the supported range, all hundredths of a day, all well- and ill-formed input strings",
 "Tests convert a few dates; leap years and century boundaries are a few days among millions.",
 ["Db/dbdata.c"], ["-"], ["day-number arithmetic"], ["wg_ymd_to_date","wg_date_to_ymd","wg_hms_to_time","wg_time_to_hms","wg_strp_iso_date","wg_strp_iso_time","wg_strf_iso_datetime"])

prop("U01", "Exporting to CSV and importing again preserves the rows",
 "Importing a CSV file stores one record per row with each field parsed to the value it denotes (quoted text verbatim, numbers, dates and times by their type), and exporting a table of such values (strings up to 4000 characters, years up to 9999; a row that is a single NULL is an empty line, which is skipped) and importing it back gives the same rows.",
 ["inputs"], "all tables of strings, integers, doubles, dates and times, with quotes, separators and newlines",
 "No stable test exports and re-imports.",
 ["Db/dbutil.c"], ["CSV file"], ["field quoting on export and unquoting/type inference on import"], ["wg_export_db_csv","wg_import_db_csv","wg_parse_and_encode"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
