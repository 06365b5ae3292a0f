---------------------------- MODULE JournalModel ----------------------------
(* The design of journal, dump and recovery, for one database and the files  *)
(* around it.  The contents are the sequence of operations that made them.   *)
(* Checked: the last good dump with the journals made since gives the        *)
(* contents, as long as every operation since was made with logging on.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS LEN, DAMAGE   \* length of the histories; a design mistake to try ("": none)
VARIABLES s,            \* contents
          n,            \* operations so far
          active, dirty,
          cur,          \* the current journal file: [on, ops] (on: there is one)
          dump,         \* the last good dump: [on, s]
          since,        \* operations in journals set aside since that dump, in order
          live,         \* the current journal file belongs to the time since that dump
          gap,          \* an operation since the dump (or the start) was not logged
          hist
vars == <<s, n, active, dirty, cur, dump, since, live, gap, hist>>
View == <<s, n, active, dirty, cur, dump, since, live, gap, Len(hist)>>
Log(a) == Len(hist) < LEN /\ hist' = Append(hist, a)
NoFile == [on |-> FALSE, ops |-> << >>]
New == [on |-> TRUE, ops |-> << >>]
SetAside == IF cur.on /\ live THEN since \o cur.ops ELSE since
Op == /\ Log("op") /\ n' = n + 1 /\ s' = Append(s, n + 1)
      /\ IF active THEN cur' = [cur EXCEPT !.ops = Append(@, n + 1)] /\ dirty' = TRUE /\ UNCHANGED gap
                   ELSE gap' = TRUE /\ UNCHANGED <<cur, dirty>>
      /\ UNCHANGED <<active, dump, since, live>>
Start == /\ Log("start") /\ ~active /\ active' = TRUE
         /\ IF dirty THEN UNCHANGED <<cur, since, live>>
                     ELSE since' = SetAside /\ cur' = New /\ live' = TRUE
         /\ UNCHANGED <<s, n, dirty, dump, gap>>
Stop == Log("stop") /\ active /\ active' = FALSE /\ UNCHANGED <<s, n, dirty, cur, dump, since, live, gap>>
Dump == /\ Log("dump") /\ dump' = [on |-> TRUE, s |-> s] /\ since' = << >> /\ gap' = FALSE
        /\ dirty' = (IF DAMAGE = "dirty" /\ ~active THEN dirty ELSE FALSE)
        /\ IF active THEN cur' = New /\ live' = TRUE ELSE live' = FALSE /\ UNCHANGED cur
        /\ UNCHANGED <<s, n, active>>
(* a dump that cannot be written changes nothing *)
BadDump == /\ Log("baddump")
           /\ IF DAMAGE = "baddump" /\ active THEN cur' = New /\ dirty' = FALSE ELSE UNCHANGED <<cur, dirty>>
           /\ UNCHANGED <<s, n, active, dump, since, live, gap>>
Import == /\ Log("import") /\ dump.on /\ s' = dump.s /\ since' = << >> /\ gap' = FALSE /\ dirty' = FALSE
          /\ IF active THEN cur' = New /\ live' = TRUE ELSE live' = FALSE /\ UNCHANGED cur
          /\ UNCHANGED <<n, active, dump>>
(* the database is lost; a new one is made from the dump and the journals *)
Recover == /\ Log("recover") /\ dump.on /\ ~gap
           /\ s' = dump.s \o since \o (IF cur.on /\ live THEN cur.ops ELSE << >>)
           /\ active' = FALSE /\ dirty' = FALSE
           /\ UNCHANGED <<n, cur, dump, since, live, gap>>
Init == /\ s = << >> /\ n = 0 /\ active = FALSE /\ dirty = FALSE /\ cur = NoFile /\ dump = [on |-> FALSE, s |-> << >>]
        /\ since = << >> /\ live = FALSE /\ gap = FALSE /\ hist = << >>
Next == Op \/ Start \/ Stop \/ Dump \/ BadDump \/ Import \/ Recover
Spec == Init /\ [][Next]_vars
Recoverable == ~gap => s = dump.s \o since \o (IF cur.on /\ live THEN cur.ops ELSE << >>)
ActiveHasFile == active => cur.on /\ live
Out == IF hist' = hist THEN TRUE ELSE PrintT(<<"HIST", ToJson(hist')>>)
=============================================================================
