------------------------------ MODULE OomTrace ------------------------------
(* Running out of space (A02).  `full` names the storage areas that have no  *)
(* room left and cannot grow.  An operation that needs storage in one of     *)
(* them may fail; a failed operation changes nothing at all.  An operation   *)
(* that needs none of them, and every operation once there is room again,    *)
(* behaves as in Store: it must succeed.                                     *)
EXTENDS StoreTrace
VARIABLES full,                         \* areas without room
          lost,                         \* hash tables given up when a hash index could not be completed (hash tables are never freed)
          last                          \* length of the record deleted by the previous operation, -1: it was another operation
ovars == <<vars, full, lost, last>>

Areas == {"rec", "long", "keys", "cell", "short", "word", "dword", "tnode", "hdr", "tmpl", "seg"}     \* seg: no area can grow
IdxNeeds == (IF \E i \in DOMAIN idx : idx[i].type = TTREE THEN {"tnode"} ELSE {})
       \cup (IF \E i \in DOMAIN idx : idx[i].type # TTREE THEN {"cell", "keys"} ELSE {})
Cls(v) == IF v < 0 THEN {"cell"} ELSE IF v = 0 THEN {}
          ELSE IF Tab.long[v] = 1 THEN {"long"} ELSE IF Tab.cls[v] = "" THEN {} ELSE {Tab.cls[v]}
Needs(v) == Cls(v) \cup (IF v > 0 /\ Tab.extra[v] > 0 THEN Cls(Tab.extra[v]) ELSE {})
Lack(areas) == areas \cap full # {}
(* only a column that an index uses, or a record that others refer to, brings index entries *)
SetNeeds(h, c, v) == Needs(v) \cup (IF (c <= MAX_COL /\ IdxCol(c)) \/ Parents(h) # {} THEN IdxNeeds ELSE {})
TypeNeeds(t) == IF t = TTREE THEN {"tnode"} ELSE {"cell", "keys", "seg"}     \* the hash table itself

Same3 == UNCHANGED <<full, lost>> /\ last' = -1
(* --- operations that fail --- *)
FCreate == Is("create") /\ Ev.h = 0 /\ Ev.n >= 0 /\ Lack({"rec"} \cup IdxNeeds)
           /\ ~ ("must" \in DOMAIN Ev /\ last = Ev.n /\ DOMAIN idx = {})
           /\ UNCHANGED svars
FSet == /\ Is("set") \/ Is("setnew")
        /\ Ev.r < 0 /\ HasCol(Ev.h, Ev.c) /\ Lack(SetNeeds(Ev.h, Ev.c, Ev.v))
        /\ UNCHANGED svars
FEnc == Is("enc") /\ Ev.w = ILL /\ Lack(Needs(Ev.v)) /\ UNCHANGED svars
FMkIdx == /\ Is("mkidx") /\ Ev.r # 0
          /\ Lack({"hdr", "cell"} \cup TypeNeeds(Ev.type)
                  \cup (IF Ev.hast = 1 THEN {"rec", "tmpl"} \cup UNION {Needs(Ev.tmpl[k]) : k \in 1..Len(Ev.tmpl)} ELSE {}))
          /\ UNCHANGED svars
(* the parts of documents: made, correct and given back at once (0), or not made at all (1) *)
FMake == /\ Is("make") /\ UNCHANGED svars
         /\ \/ Ev.r = 0
            \/ Ev.r = 1 /\ Lack({"rec"} \cup (IF Ev.ref = 1 THEN {"cell"} ELSE {}) \cup IdxNeeds)
(* a whole JSON document, given back at once when it could be made; 5: it could be made but not be deleted (see FDocDel) *)
FJson == /\ Is("json") /\ UNCHANGED svars
         /\ \/ Ev.r = 0
            \/ (Ev.r < 0 \/ Ev.r = 5) /\ Lack({"rec", "long", "short", "word", "dword", "cell"} \cup IdxNeeds)
(* deleting a document completely or not at all: a known finding, decided in histories of their own *)
FDocDel == /\ Is("docdel") /\ UNCHANGED svars
           /\ \/ Ev.r = 0
              \/ Ev.r < 0 /\ Lack(IdxNeeds) /\ Ev.whole = 1
(* --- the room itself --- *)
OFull == IsQ("full") /\ full' = full \cup Range1(Ev.a) /\ last' = -1 /\ UNCHANGED <<svars, open, lost>>
ORoom == IsQ("room") /\ full' = {} /\ last' = -1 /\ UNCHANGED <<svars, open, lost>>
(* creating a database in a given amount of memory: refused when it is too small, usable otherwise *)
OAttach == /\ Is("attach") /\ UNCHANGED svars /\ Same3
           /\ Ev.n <= Ev.hdr => Ev.r = 0
           /\ Ev.n >= 1000000 => Ev.r = 1
           /\ Ev.r = 1 => Ev.ok = 1
(* nothing outside the place of the data has changed: everything in the header that describes the segment *)
OHead == Is("head") /\ UNCHANGED svars /\ Same3 /\ Ev.r = 1
OAcct == Is("acct") /\ UNCHANGED svars /\ AcctOK(lost) /\ Same3

Lost == lost' = lost + (IF Ev.op = "mkidx" /\ Ev.type # TTREE THEN 1 ELSE 0)
ODel == TDel /\ UNCHANGED <<full, lost>> /\ last' = IF Ev.r = 0 THEN Len(recs[Ev.h]) ELSE -1
OReset == TReset /\ full' = {} /\ lost' = 0 /\ last' = -1
OOk == (TCreate \/ TSet \/ TSetNew \/ TGet \/ TLen \/ TScan \/ TPar \/ TSnap \/ TCmp \/ TEnc \/ TSame \/ TMkIdx \/ TDrop \/ TAll \/ TLook
        \/ TType \/ TTmpl \/ TTTree \/ THash \/ TStrs \/ TQuery \/ TFind \/ TUpd \/ TASet \/ TAAdd) /\ Same3
OFail == (FCreate \/ FSet \/ FEnc \/ FMkIdx \/ FMake \/ FJson \/ FDocDel) /\ Lost /\ full' = full /\ last' = -1

OomInit == TraceInit /\ full = {} /\ lost = 0 /\ last = -1
OomNext == OReset \/ OFull \/ ORoom \/ OAttach \/ OHead \/ OAcct \/ ODel \/ OOk \/ OFail
OomSpec == OomInit /\ [][OomNext]_ovars
=============================================================================
