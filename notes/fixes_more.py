{
 "refuse varlen objects larger": ("A01", "a request larger than the segment (e.g. wg_create_record(db, 1<<40)) crashed in the allocator"),
 "free the nodes of a dropped T-tree": ("A01", "dropping a T-tree index lost all its nodes (built without chained nodes)"),
 "initialize the use count of a new index template": ("A01", "the template of a dropped index stayed allocated (uninitialised use count)"),
 "journal the full width of integers": ("J01", "integers above 32 bits were journaled as 32-bit values"),
 "report an encode entry of an unknown type": ("J02", "a journal with an encode entry of an unknown type was replayed as a success"),
 "do not create a record on replay when its creation had failed": ("J01", "the replay created a record for a journaled creation that had failed"),
 "let the latest journal translation of an offset apply": ("J01", "after an offset was freed and reused, the replay translated it to the old object"),
 "journal the metadata of parameter triples": ("J01", "a triple created as a parameter lost its parameter mark on replay"),
 "reindex a record when its metadata is replayed": ("J01", "indexes of the replayed database missed records whose metadata was replayed"),
 "do not nest journal entries when encoding a string": ("J01", "the entry of a string's extra string was written inside the entry of the string"),
 "journal blobs": ("J01", "blob encodings were not journaled; the replay failed"),
 "forget the journal descriptor when it is closed": ("J03", "a descriptor closed after a failed write was used again"),
 "take the lock before opening the dump file": ("D01", "the size of the dump was read before the lock was taken; a failed lock truncated an existing dump"),
 "report a dump that could not be written": ("D02", "a dump to a full device was reported as a success"),
 "keep the journal when a dump fails": ("J03", "a failed dump rotated the journal away, a successful one kept an obsolete journal as needed"),
 "keep the database key and the journal serial": ("J03", "importing a dump of another database changed the journal file name and serial"),
 "reopen the journal when a new file replaced": ("J03", "a handle kept writing to a journal that had been removed"),
 "compute the checksum of a dump from the data": ("D01", "a dump written while another process waited for the lock had a wrong checksum (the lock queue changed between the two passes) and was refused on import"),
 "refuse blobs of negative length": ("V01", "wg_encode_blob with a negative length copied without bound and crashed"),
 "convert the millisecond part of a queued lock timeout": ("L02", "timeouts below a second gave up at once, others were rounded down to seconds"),
 "do not take an interrupted wait for a granted": ("L01", "a signal or a late wake-up meant for the previous user of a queue cell granted the lock to a process that was still waiting"),
 "keep a queued lock that was granted while": ("L02", "a waiter granted at the moment it timed out left the queue without waking its successor"),
 "wake the readers queued behind a writer that gives up": ("L02", "readers behind a writer that timed out kept waiting beside active readers"),
 "pass on a read lock granted before the wait": ("L02", "a reader granted before it looked did not let the readers behind it in"),
 "refuse dates that do not exist": ("T01", "31 February and year 0 were converted to the number of another day"),
 "refuse times of day that do not exist": ("T01", "minute 60, second 60 and times after 24:00 were taken"),
 "read a single decimal of a second as tenths": ("T01", "12:00:00.5 was read as 12:00:00.05"),
 "print integers in full": ("U01", "integers beyond 32 bits were exported cut to 32 bits"),
 "export doubles without loss": ("U01", "doubles were exported with six decimals only"),
 "print dates after the year 9999 whole": ("U01", "the day of 12345-06-07 was cut to 12345-06-0"),
 "quote characters exported to CSV": ("U01", "a character that is a comma or a quote broke the row"),
 "export URIs that have no prefix": ("U01", "a URI without prefix was exported as (null)..."),
 "import quoted CSV fields as text": ("U01", "exported strings like 123 came back as numbers, empty ones as NULL"),
 "import the last line of a CSV file": ("U01", "a last line without a line end was dropped"),
 "only parse a text as a date or time": ("U01", "2010-01-01 draft was imported as a date, 1-2-3 too"),
 "parse all digits of a number": ("U01", "decimals of more than 79 characters were cut"),
 "do not judge a parsed number by an old": ("U01", "after any failed call the next number was imported as text"),
 "free the values of a CSV row": ("U01", "values of an incomplete row stayed stored without an owner"),
 "store JSON null values": ("N01", "null elements and members of a JSON text were dropped"),
 "do not cut long JSON object keys": ("N01", "keys were cut after 79 bytes"),
 "refuse JSON strings and keys that contain a NUL": ("N01", "strings with \\u0000 were stored cut at that character"),
 "let the JSON syntax check refuse numbers": ("N01", "the syntax check accepted numbers out of range, a file with one was stored in part"),
 "allow the same JSON nesting depth": ("N01", "the check refused texts of the largest depth that the parser stores"),
 "parse JSON files whose size is a multiple": ("N01", "a file of a multiple of 16384 bytes (or none) was reported as stored and was not"),
 "print JSON numbers with their full precision": ("N01", "printed documents held other numbers than the stored ones"),
 "find, query and delete documents with deeply": ("N02", "documents with nested objects were not found, made queries fail and were deleted in part"),
 "ignore records outside documents": ("N02", "a matching record outside every document made the query fail"),
 "do not take array elements for key-value pairs": ("N02", "a document with an array holding key and value as neighbours was returned"),
 "refuse to delete a document before changing": ("N03", "a refused deletion had removed a part of the document"),
 "refuse a JSON text that ends inside a string": ("N01", "a text like []\" or [] /* was stored as a document"),
 "do not leave an incomplete triple, array": ("A02", "a failed wg_create_triple left its record behind, with fields half set"),
 "refuse to change a field when there is no room": ("A02", "wg_set_field failed after the old value had been released and some index entries removed"),
 "do not leave a record behind that there is no room for": ("A02", "a failed wg_create_record left a record behind that some indexes knew"),
 "leave a T-tree as it was when there is no room": ("A02", "an insertion without room for a new node lost an entry or corrupted the tree"),
 "undo the creation of an index that there is no room": ("A02", "a failed index creation stayed in the catalogue, half filled"),
 "refuse an index template when there is no room": ("A02", "a failed template was used as if it existed (written to offset 0 of the segment)"),
 "refuse to store a record reference when there is no room": ("A02", "a reference was stored without its backlink"),
 "refuse to store a hash index entry when there is no room": ("A02", "a list cell at offset 0 was written: the segment header was overwritten"),
 "free a long string when there is no room for its second": ("A02", "the first half of the string stayed allocated"),
 "keep the list of indexes when there is no room": ("A02", "a failed index creation emptied the index list of the column"),
 "refuse to create a database smaller than its header": ("A02", "memory outside the database was written"),
 "detach from a database that is refused": ("M01", "an attach that was refused (wrong version or header, too small, no journal) left the segment mapped in the process: a deleted database stayed in memory"),
 "refuse to register more external databases than there is room for": ("E01", "wg_register_external_db answered 0 for the 21st database without registering it"),
 "refuse to dump a database that refers to other databases": ("E01", "wg_dump printed an error but wrote the dump and answered 0; no database could import it"),
 "decode the second part of a string of an external database": ("E01", "the language, type or prefix of a long string of another database was looked up in the wrong database"),
 "keep the second part of a string in the string table when both share a chain": ("V02", "a string whose language, type or prefix fell into the same chain of the string table removed that second part from the table: it was stored twice later and could not be removed"),
 "leave no part of a journal entry that could not be written": ("J01", "when the disk was full an operation was refused but part of its entry stayed in the journal: what was logged after it could not be replayed (wg_replay_log failed or did not end)"),
 "do not keep a record whose creation could not be journaled": ("J01", "wg_create_record refused for a journal that could not be written left the record in the database, not in the journal"),
}
