---------------------------- MODULE JournalTrace ----------------------------
(* Store plus its files: the journal, the journals set aside, the dumps.     *)
(* A journal is described by the state it starts from and the state it leads *)
(* to; replaying it on the former must give the latter.  Every event carries *)
(* the identity (content hash) of the current journal file after it.         *)
EXTENDS StoreTrace
VARIABLES active, dirty,
          cur,      \* [id, from, to, ok, t]: the current journal; id 0: there is none
          bak,      \* [slot -> the same]: journals set aside
          dumps     \* [name -> [recs, addr, idx]]
jvars == <<active, dirty, cur, bak, dumps>>
SLOTS == 0..9
EMPTY == 1                \* the identity of a journal without entries
NoJ == [id |-> 0, from |-> << >>, to |-> << >>, ok |-> FALSE, t |-> 0]
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

(* an operation on the data: it is in the journal when it is over *)
Logged == /\ UNCHANGED <<active, bak, dumps>>
          /\ IF active
             THEN /\ (recs' # recs /\ "ad" \notin DOMAIN Ev) => Ev.j # cur.id
                  /\ cur' = [cur EXCEPT !.id = Ev.j, !.to = recs']
                  /\ dirty' = (dirty \/ Ev.j # cur.id)
             ELSE Ev.j = cur.id /\ UNCHANGED <<cur, dirty>>
JOp == TraceNext /\ Ev.op # "reset" /\ Logged
JReset == /\ TReset /\ active' = FALSE /\ dirty' = FALSE
          /\ cur' = NoJ /\ bak' = << >> /\ dumps' = << >>
(* the process and the database are gone, the files remain *)
JCrash == /\ IsQ("crash") /\ open' = << >> /\ recs' = << >> /\ addr' = << >> /\ idx' = << >>
          /\ active' = FALSE /\ dirty' = FALSE /\ Ev.j = cur.id /\ UNCHANGED <<cur, bak, dumps>>

(* the slot a journal is set aside in: the first unused one, then the oldest *)
Slot == LET free == SLOTS \ DOMAIN bak
        IN IF free # {} THEN CHOOSE s \in free : \A x \in free : s <= x
           ELSE CHOOSE s \in SLOTS : \A x \in SLOTS : bak[s].t <= bak[x].t
BakIs(b) == {<<s, b[s].id>> : s \in DOMAIN b} = {<<Ev.b[i][1], Ev.b[i][2]>> : i \in 1..Len(Ev.b)}
(* a journal that starts here: a clean database sets the file that is there aside, a dirty one goes on with it *)
Restart(d, state) ==
  /\ IF d THEN /\ bak' = bak /\ Ev.j = cur.id
               /\ cur' = [cur EXCEPT !.ok = cur.ok /\ cur.to = state]
     ELSE /\ bak' = (IF cur.id # 0 THEN Put(bak, Slot, [cur EXCEPT !.t = Ev.t]) ELSE bak)
          /\ Ev.j # 0
          /\ cur' = [id |-> Ev.j, from |-> state, to |-> state, ok |-> TRUE, t |-> 0]
  /\ BakIs(bak') /\ dirty' = d /\ active' = TRUE
Same == Ev.j = cur.id /\ BakIs(bak) /\ UNCHANGED <<svars, open, jvars>>
JStart == /\ IsQ("start") /\ UNCHANGED <<svars, open, dumps>>
          /\ IF active THEN Ev.r = -1 /\ Ev.j = cur.id /\ BakIs(bak) /\ UNCHANGED jvars
             ELSE Ev.r = 0 /\ Restart(dirty, recs)
JStop == /\ IsQ("stop") /\ UNCHANGED <<svars, open>> /\ Ev.j = cur.id /\ BakIs(bak)
         /\ IF active THEN Ev.r = 0 /\ active' = FALSE /\ UNCHANGED <<dirty, cur, bak, dumps>>
            ELSE Ev.r # 0 /\ UNCHANGED jvars
State == [recs |-> recs, addr |-> addr, idx |-> idx]
JDump == /\ IsQ("dump") /\ UNCHANGED <<svars, open>>
         /\ IF Ev.ok = 1
            THEN /\ Ev.r = 0 /\ dumps' = Put(dumps, Ev.d, State)
                 /\ IF active THEN Restart(FALSE, recs)
                    ELSE dirty' = FALSE /\ Ev.j = cur.id /\ BakIs(bak) /\ UNCHANGED <<active, cur, bak>>
            ELSE Ev.r # 0 /\ Same             \* a dump that fails leaves the journal going
JImport == /\ IsQ("import")
           /\ IF Ev.ok = 1
              THEN /\ Ev.r = 0
                   /\ recs' = dumps[Ev.d].recs /\ addr' = dumps[Ev.d].addr /\ idx' = dumps[Ev.d].idx /\ open' = << >>
                   /\ IF active THEN Restart(FALSE, recs') /\ UNCHANGED dumps
                      ELSE dirty' = FALSE /\ Ev.j = cur.id /\ BakIs(bak) /\ UNCHANGED <<active, cur, bak, dumps>>
              ELSE Ev.r # 0 /\ Same
JournalOf(id) == (IF id = cur.id THEN {cur} ELSE {}) \cup {bak[s] : s \in {x \in DOMAIN bak : bak[x].id = id}}
RECURSIVE Chain(_, _, _)
(* the states a chain of journals can lead to (the same file contents may stem from several journals); none if they do not belong together *)
Chain(S, js, i) == IF i > Len(js) THEN {S}
                   ELSE IF js[i] = EMPTY THEN Chain(S, js, i + 1)
                   ELSE UNION {Chain(j.to, js, i + 1) : j \in {x \in JournalOf(js[i]) : x.ok /\ x.from = S}}
Content(S) == /\ {Ev.hs[i] : i \in 1..Len(Ev.hs)} = DOMAIN S /\ NoDup(Ev.hs)
              /\ \A i \in 1..Len(Ev.hs) : S[Ev.hs[i]] = Ev.fs[i]
(* recovery in another database from a dump (or nothing) and journals *)
JRecover == /\ IsQ("recover") /\ UNCHANGED <<svars, open, jvars>> /\ Ev.j = cur.id
            /\ LET C == Chain(IF Ev.d = "" THEN << >> ELSE dumps[Ev.d].recs, Ev.js, 1)
               IN IF C # {} THEN Ev.r = 0 /\ (\E S \in C : Content(S)) /\ Ev.ms = Ev.om ELSE Ev.must = 0
(* replay into this database; it continues with what the journal leads to *)
JReplay == /\ IsQ("replay") /\ UNCHANGED <<idx, dumps>> /\ open' = << >>
           /\ IF Ev.ok = 1
              THEN LET C == Chain(recs, Ev.js, 1)
                   IN /\ Ev.r = 0 /\ recs' \in {S \in C : Content(S)}
                      /\ addr' = [h \in DOMAIN recs' |-> Ev.as[CHOOSE i \in 1..Len(Ev.hs) : Ev.hs[i] = h]]
                      /\ IF active THEN Restart(FALSE, recs')
                         ELSE dirty' = FALSE /\ Ev.j = cur.id /\ BakIs(bak) /\ UNCHANGED <<active, cur, bak>>
              ELSE Ev.r = -1 /\ Ev.j = cur.id /\ BakIs(bak) /\ UNCHANGED <<recs, addr, active, dirty, cur, bak>>
(* the user removes a journal that a dump has made superfluous *)
JRemove == /\ IsQ("rmj") /\ ~active /\ ~dirty /\ UNCHANGED <<svars, open, active, dirty, bak, dumps>>
           /\ Ev.j = 0 /\ BakIs(bak) /\ cur' = NoJ
(* a journal cut off after k bytes gives the state before the operation it is cut in *)
JCut == /\ IsQ("cut") /\ UNCHANGED <<svars, open, jvars>>
        /\ Content(recs)
        /\ Ev.whole = 1 => Ev.r = 0
        /\ Ev.whole = 0 /\ Ev.single = 1 => Ev.r # 0
(* a file that is no journal: reported, and nothing happens *)
JBad == /\ IsQ("badlog") /\ UNCHANGED <<svars, open, jvars>> /\ Content(recs) /\ Ev.r # 0
JAct == /\ IsQ("logstate") /\ UNCHANGED <<svars, open, jvars>> /\ (Ev.a = 1) = active /\ (Ev.dirty = 1) = dirty
JInit == TraceInit /\ active = FALSE /\ dirty = FALSE /\ cur = NoJ /\ bak = << >> /\ dumps = << >>
JNext == JOp \/ JReset \/ JCrash \/ JStart \/ JStop \/ JDump \/ JImport \/ JRecover \/ JReplay \/ JCut \/ JBad \/ JAct \/ JRemove
JSpec == JInit /\ [][JNext]_<<vars, jvars>>
=============================================================================
