--------------------------- MODULE OomJournalTrace ---------------------------
(* A journal kept while there is no room: an operation that fails may leave  *)
(* entries in the journal, but the journal leads to the contents there are,  *)
(* replayed into a database that has room for everything.                    *)
EXTENDS OomTrace, JournalTrace
(* the journal cannot be written: what is refused changes nothing *)
JFail == /\ "jrn" \in full /\ active /\ UNCHANGED svars /\ UNCHANGED <<full, lost>> /\ last' = -1
         /\ \/ Is("create") /\ Ev.h = 0
            \/ (Is("set") \/ Is("setnew") \/ Is("del")) /\ Ev.r < 0
            \/ Is("enc") /\ Ev.w = ILL
         /\ cur' = [cur EXCEPT !.id = Ev.j] /\ UNCHANGED <<active, bak, dumps>> /\ dirty' \in {dirty, TRUE}
OJData == (ODel \/ OOk \/ OFail \/ OFull \/ ORoom \/ OHead) /\ Logged
OJFiles == (JStart \/ JStop \/ JDump \/ JRecover) /\ UNCHANGED <<full, lost, last>>
OJInit == OomInit /\ active = FALSE /\ dirty = FALSE /\ cur = NoJ /\ bak = << >> /\ dumps = << >>
OJReset == JReset /\ full' = {} /\ lost' = 0 /\ last' = -1
OJNext == OJReset \/ JFail \/ OJData \/ OJFiles
OJSpec == OJInit /\ [][OJNext]_<<ovars, jvars>>
=============================================================================
