------------------------------ MODULE SpinLock ------------------------------
(* The spin locks: one word with a writer flag and a reader count, and for    *)
(* the writer-preference protocol a count of announced writers.  Every memory *)
(* access is a step of its own; waiting ones may give up at any time.         *)
EXTENDS Integers, FiniteSets
CONSTANTS N, PREF        \* PREF: "R" or "W"
P == 1..N
VARIABLES pc, kind, flag, readers, writers, seen, ann
vars == <<pc, kind, flag, readers, writers, seen, ann>>
(* ann: the writers that were announced before a waiting reader arrived (to state that it does not overtake them) *)
Init == pc = [p \in P |-> "idle"] /\ kind = [p \in P |-> "R"] /\ flag = FALSE /\ readers = 0 /\ writers = 0 /\ seen = [p \in P |-> 0] /\ ann = [p \in P |-> {}]
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
U == UNCHANGED <<kind, flag, readers, writers, seen, ann>>
Announced == {q \in P : kind[q] = "W" /\ pc[q] = "cas"}
Request(p, k) == /\ pc[p] = "idle" /\ kind' = [kind EXCEPT ![p] = k]
                 /\ Go(p, IF k = "W" THEN (IF PREF = "W" THEN "ann" ELSE "cas") ELSE (IF PREF = "W" THEN "look" ELSE "incr"))
                 /\ ann' = [ann EXCEPT ![p] = IF k = "R" THEN Announced ELSE {}] /\ UNCHANGED <<flag, readers, writers, seen>>
(* writers *)
Announce(p) == pc[p] = "ann" /\ writers' = writers + 1 /\ Go(p, "cas") /\ UNCHANGED <<kind, flag, readers, seen, ann>>
Cas(p) == /\ pc[p] = "cas" /\ ~ flag /\ readers = 0 /\ flag' = TRUE /\ Go(p, "hold") 
          /\ ann' = [q \in P |-> ann[q] \ {p}] /\ UNCHANGED <<kind, readers, writers, seen>>
WGiveUp(p) == /\ pc[p] = "cas" /\ ann' = [q \in P |-> ann[q] \ {p}]
              /\ IF PREF = "W" THEN writers' = writers - 1 ELSE UNCHANGED writers
              /\ Go(p, "idle") /\ UNCHANGED <<kind, flag, readers, seen>>
WRelease(p) == pc[p] = "hold" /\ kind[p] = "W" /\ flag' = FALSE /\ Go(p, IF PREF = "W" THEN "unann" ELSE "idle") /\ UNCHANGED <<kind, readers, writers, seen, ann>>
Unannounce(p) == pc[p] = "unann" /\ writers' = writers - 1 /\ Go(p, "idle") /\ UNCHANGED <<kind, flag, readers, seen, ann>>
(* readers, reader preference: count, then wait for the flag *)
Incr(p) == pc[p] = "incr" /\ readers' = readers + 1 /\ Go(p, "rwait") /\ UNCHANGED <<kind, flag, writers, seen, ann>>
RSee(p) == pc[p] = "rwait" /\ ~ flag /\ Go(p, "hold") /\ U
RGiveUp(p) == pc[p] = "rwait" /\ readers' = readers - 1 /\ Go(p, "idle") /\ UNCHANGED <<kind, flag, writers, seen, ann>>
(* readers, writer preference: no writers announced, read the count, compare and swap *)
LookW(p) == pc[p] = "look" /\ writers = 0 /\ Go(p, "read") /\ U
LGiveUp(p) == pc[p] = "look" /\ Go(p, "idle") /\ U
ReadC(p) == pc[p] = "read" /\ seen' = [seen EXCEPT ![p] = readers] /\ Go(p, "rcas") /\ UNCHANGED <<kind, flag, readers, writers, ann>>
RCas(p) == /\ pc[p] = "rcas"
           /\ IF ~ flag /\ readers = seen[p] THEN readers' = readers + 1 /\ Go(p, "hold") ELSE UNCHANGED readers /\ Go(p, "again")
           /\ UNCHANGED <<kind, flag, writers, seen, ann>>
Again(p) == pc[p] = "again" /\ Go(p, IF writers = 0 THEN "read" ELSE "look") /\ U
RRelease(p) == pc[p] = "hold" /\ kind[p] = "R" /\ readers' = readers - 1 /\ Go(p, "idle") /\ UNCHANGED <<kind, flag, writers, seen, ann>>
Next == \E p \in P : Request(p, "R") \/ Request(p, "W") \/ Announce(p) \/ Cas(p) \/ WGiveUp(p) \/ WRelease(p) \/ Unannounce(p)
                     \/ Incr(p) \/ RSee(p) \/ RGiveUp(p) \/ LookW(p) \/ LGiveUp(p) \/ ReadC(p) \/ RCas(p) \/ Again(p) \/ RRelease(p)
Spec == Init /\ [][Next]_vars
Exclusion == \A p, q \in P : p # q /\ pc[p] = "hold" /\ pc[q] = "hold" => kind[p] = "R" /\ kind[q] = "R"
(* the counts describe exactly who is there *)
Counts == /\ flag = (\E p \in P : pc[p] = "hold" /\ kind[p] = "W")
          /\ readers = Cardinality({p \in P : kind[p] = "R" /\ pc[p] \in {"hold", "rwait"}})
          /\ PREF = "W" => writers = Cardinality({p \in P : kind[p] = "W" /\ pc[p] \in {"cas", "hold", "unann"}})
(* with writer preference no reader is let in past a writer announced before it came *)
Order == PREF = "W" => \A p \in P : pc[p] = "hold" /\ kind[p] = "R" => ann[p] = {}
(* whoever is alone can get on *)
CanGo == \A p \in P : (\A q \in P : q # p => pc[q] = "idle") /\ pc[p] # "idle" =>
         ENABLED (Announce(p) \/ Cas(p) \/ WRelease(p) \/ Unannounce(p) \/ Incr(p) \/ RSee(p) \/ LookW(p) \/ ReadC(p) \/ RCas(p) \/ Again(p) \/ RRelease(p))
=============================================================================
