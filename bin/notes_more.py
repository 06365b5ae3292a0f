
note("A01", "TLA+ allocator specification (Alloc.tla, AllocModel.tla): recorded histories and heap snapshots checked by TLC, model behaviours replayed into the allocator",
     "AllocModel is checked exhaustively for a small area and every transition of it is replayed (quick: 1/24 of them); snapshots of the whole heap after random histories of all size classes; storage accounting against the abstract database state." + COMMON)
note("J01", "TLA+ journal specification (JournalTrace.tla over Store.tla): histories recorded with logging on, replays compared by TLC with the abstract state the journal denotes",
     "Every operation of the store drivers is run with logging on and the journal replayed into empty databases at random points; so are histories over databases without room and journals on full disks." + COMMON)
note("J02", "TLA+ journal specification: the driver cuts the journal at byte positions inside every operation and TLC checks the replayed prefix state",
     "Cuts inside single entries must be refused; entry boundaries inside one operation may only show the state before or after. Malformed journals: invalid headers, unknown entries, truncations." + COMMON)
note("J03", "TLA+ design model of journal rotation (JournalModel.tla, exhaustive) with model behaviours replayed into the code, and recorded histories of start/stop/dump/import/replay checked by TLC",
     "JournalModel is checked exhaustively to behaviours of 13 steps, all behaviours of 7 steps of the generator configuration are replayed (quick: a sample); each recoverable chain is really restored and compared." + COMMON)
note("D01", "TLA+ store specification: recorded histories whose database travels through dumps at random points are validated by TLC; concurrent dumps against DumpTrace.tla (linearization points searched by TLC)",
     "Every store profile with round trips (same database after unrelated changes, another segment, an exactly fitting one); locks must be free afterwards. Concurrent part: writer threads and dumps, including a dump read slowly through a pipe while a writer waits." + COMMON)
note("D02", "TLA+ store specification (TChk: the verdict about every kind of damage); recorded attempts validated by TLC",
     "Truncations, extensions, bit flips at header, checksum and data positions (random and at block boundaries), other builds, too small targets, external references, write failures, a held lock; the database afterwards is compared with the abstract state." + COMMON)

LK = " Compiled with thread-sanitizer instrumentation and an own run-time: every access to the shared segment is a scheduling point, futex/sleep/clock are simulated, signals are injected; sequential consistency is assumed (x86 store buffering is not modelled)."
note("L01", "TLA+ lock design models (QueueLock.tla, SpinLock.tla, exhaustive) and TLC validation (LockTrace.tla, aspect exclusion) of histories of the real code under controlled schedules",
     "Preemption-bounded enumeration of all small scenarios (quick: one preemption and a part of two; thorough: two), random and priority schedules of up to 8 processes, all three lock protocols." + LK)
note("L02", "TLA+ lock design models with liveness (QueueLock.tla) and TLC validation (LockTrace.tla, aspect progress) of histories of the real code under controlled schedules and virtual time",
     "Time passes only when nobody can run, so a wait beyond 100 ms without a reason, an early or late time-out, a lost wake-up and a lost queue cell are all visible." + LK)
note("L03", "TLA+ lock design models and TLC validation (LockTrace.tla, aspect order) of histories of the real code under controlled schedules",
     "Queue protocol: all conflicting pairs; writer preference: waiting writers against later readers." + LK)
note("L04", "TLA+ specification of atomic field updates (AtomicTrace.tla): TLC searches linearization points for histories of the real code under controlled schedules; sequential histories against Store.tla",
     "2-5 processes, 1-3 operations each, immediate and refused values, range limits, indexed columns, active logging; preemption-bounded enumeration of small cases." + LK)

note("T01", "TLA+ calendar and clock (Calendar.tla: counting days and hundredths, checked against closed forms over the 400 year cycle); conversions recorded from the code validated by TLC (CalTrace.tla)",
     "Thorough: every day of every year that can be encoded and every hundredth of a second of a day, both directions, with the nonexistent neighbours of each month and second. Quick: runs of years and seconds all over the range, with emphasis on century boundaries. Text in both directions: printed forms exactly, any other text may be refused or read leniently but never as a date that does not exist.")

note("U01", "TLA+ specification of CSV text, of the values texts denote and of tables (CsvTrace.tla); files and tables recorded from the code validated by TLC in both directions",
     "Tables of all value types exported, parsed by the specification and imported again; well-formed files of other origin (both line ends, missing last line end, quoting of anything, up to 25 columns); malformed ones must not lose earlier rows or leak values; single texts through wg_parse_and_encode and its parameter form, with an old errno. The value of a decimal text is taken from the machine's correctly rounded conversion (Python). Strings stay below the 4 kB field limit.")

note("N01", "TLA+ specification of JSON text (JsonText.tla: a byte-wise reader that gives the value a text denotes or refuses it) and of the stored documents (JsonTrace.tla); parses, checks and prints recorded from the code validated by TLC",
     "Random and systematically damaged texts of all kinds (escapes, surrogates, comments, numbers at the limits, nesting around the limit, missing ends), through all five entry points, with reader chunk boundaries at every byte of some files; after each the whole heap of records is compared, and the storage accounted for. Decimal texts are converted by the machine's correctly rounded conversion (Python). Lone surrogates and overlong UTF-8 are not generated.")
note("N02", "TLA+ specification of document containment (JsonTrace.tla); histories of documents, changes, deletions, indexes and queries recorded from the code validated by TLC",
     "Random documents with few keys and values (so that everything matches something), queries of 1-4 pairs with literal and nested values, with and without JSON indexes created and dropped at random times, element overwrites in stored documents, result sets over the page and hash-join limits.")
note("N03", "TLA+ specification of document deletion (JsonTrace.tla); histories recorded from the code validated by TLC",
     "Deletion of documents with nested, shared and linked parts, with indexes on the key and value columns, from every position; records that remain, index contents and storage are compared with the specification.")
note("A02", "TLA+ specification of running out of room (OomTrace.tla over Store.tla): which operations may fail when which storage areas are full, and that a failed one changes nothing; histories recorded from the code validated by TLC",
     "Histories over databases whose storage areas are occupied one by one, in pairs or all together, with 0 to 19 objects left, so that every allocation of an operation is at some time the one that fails; small segments filled up the ordinary way; databases of every size from 16 bytes up, behind guard pages. After every operation the whole database state, all index contents, the reference counts, the storage accounting and the segment header are compared with the specification. Excluded: partial JSON documents, which the interface announces (-2); the hash table of a failed hash index stays allocated (hash tables are never freed).")
note("M01", "TLA+ specification of named shared databases (SharedTrace.tla: names, segments, handles, processes, permissions, attaches in progress) and of the store; histories of several real processes recorded from the code validated by TLC",
     "Up to 6 processes of different users attach, detach, are killed, delete, use and damage headers of up to 3 databases; after every event the system's table of shared segments must be the specification's. An attach is stopped at every basic-block transition and shared-memory call (library built with coverage hooks) while others attach, work, delete, or it is killed there. Concurrent locked work is ordered by tickets taken inside the lock. Every store profile also runs with its work moving between handles and processes (same Store.tla oracle). Not covered: huge pages, Windows, names that overflow an int.")

note("E01", "TLA+ specification of several databases that refer to each other (ExtTrace.tla over the store: which database each record and each value lives in, who is registered with whom); recorded histories of the code validated by TLC",
 "Two to four local databases in one process. A history registers databases (in any direction, more than there is room for), creates and deletes records, sets fields to own values, own records, records and values of others (as wg_encode_external_data gives them), creates and drops indexes, reads, compares, queries, looks for parents and owners, and dumps. The specification keeps for each field the value and the database that holds it; it says when a reference is accepted (local or registered), that it reads back as the same value or record of the same database, which databases are refused (too many, indexes present), what may be indexed or dumped, that deleting works only in the own database and heeds only its own parent links, and, after every few operations, that each database counts exactly the records, strings (with their reference counts), words and list cells that its own fields hold: nothing of another one is counted, modified or freed.")
