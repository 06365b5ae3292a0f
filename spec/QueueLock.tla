------------------------------ MODULE QueueLock ------------------------------
(* The task-fair queued lock: a linked queue of cells under a mutex (sections *)
(* under the mutex are single steps here), futex waits that may end early     *)
(* (signals, wake-ups meant for the previous user of a cell) or time out.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, CELLS
P == 1..N
C == 1..CELLS
VARIABLES pc, kind, cell, waiting, cls, nxt, prv, tail, free, towake, order
vars == <<pc, kind, cell, waiting, cls, nxt, prv, tail, free, towake, order>>
(* pc: idle | chk (looks whether it must wait) | sleep | tmo | chain | hold | wake (holding) | wakeidle | wakechk *)
(* towake: the cell a process is about to wake; order: requests not yet granted or given up, and held locks, oldest first *)
Init == /\ pc = [p \in P |-> "idle"] /\ kind = [p \in P |-> "R"] /\ cell = [p \in P |-> 0] /\ towake = [p \in P |-> 0]
        /\ waiting = [c \in C |-> FALSE] /\ cls = [c \in C |-> "R"] /\ nxt = [c \in C |-> 0] /\ prv = [c \in C |-> 0]
        /\ tail = 0 /\ free = [i \in C |-> i] /\ order = << >>
Remove(s, x) == SelectSeq(s, LAMBDA y : y # x)
(* enter the queue: granted at once if it is empty, or if a reader follows a reader that is not waiting *)
Enter(p, k) == /\ pc[p] = "idle" /\ free # << >>
               /\ LET c == Head(free)  v == tail
                      w == v # 0 /\ ~ (k = "R" /\ cls[v] = "R" /\ ~ waiting[v]) IN
                  /\ free' = Tail(free) /\ tail' = c /\ cell' = [cell EXCEPT ![p] = c] /\ kind' = [kind EXCEPT ![p] = k]
                  /\ cls' = [cls EXCEPT ![c] = k] /\ prv' = [prv EXCEPT ![c] = v]
                  /\ nxt' = [x \in C |-> IF x = c THEN 0 ELSE IF x = v THEN c ELSE nxt[x]]
                  /\ waiting' = [waiting EXCEPT ![c] = w]
                  /\ pc' = [pc EXCEPT ![p] = IF w THEN "chk" ELSE "hold"]
               /\ order' = Append(order, p) /\ UNCHANGED towake
Look(p) == /\ pc[p] = "chk"
           /\ pc' = [pc EXCEPT ![p] = IF waiting[cell[p]] THEN "sleep" ELSE IF kind[p] = "R" THEN "chain" ELSE "hold"]
           /\ UNCHANGED <<kind, cell, waiting, cls, nxt, prv, tail, free, towake, order>>
Early(p) == pc[p] = "sleep" /\ pc' = [pc EXCEPT ![p] = "chk"] /\ UNCHANGED <<kind, cell, waiting, cls, nxt, prv, tail, free, towake, order>>
Expire(p) == pc[p] = "sleep" /\ pc' = [pc EXCEPT ![p] = "tmo"] /\ UNCHANGED <<kind, cell, waiting, cls, nxt, prv, tail, free, towake, order>>
(* out of time: keep the lock if it was granted meanwhile, otherwise leave the queue; readers behind a writer may now join *)
GiveUp(p) ==
  /\ pc[p] = "tmo"
  /\ LET c == cell[p]  a == prv[c]  b == nxt[c] IN
     IF ~ waiting[c] THEN /\ pc' = [pc EXCEPT ![p] = IF kind[p] = "R" THEN "chain" ELSE "hold"]
                          /\ UNCHANGED <<kind, cell, waiting, cls, nxt, prv, tail, free, towake, order>>
     ELSE LET j == /\ kind[p] = "W" /\ a # 0 /\ b # 0 /\ cls[a] = "R" /\ ~ waiting[a] /\ cls[b] = "R" IN
          /\ nxt' = [x \in C |-> IF x = c THEN 0 ELSE IF x = a THEN b ELSE nxt[x]]
          /\ prv' = [x \in C |-> IF x = c THEN 0 ELSE IF x = b THEN a ELSE prv[x]]
          /\ tail' = IF b = 0 /\ tail = c THEN a ELSE tail
          /\ waiting' = [x \in C |-> IF x = c \/ (j /\ x = b) THEN FALSE ELSE waiting[x]]
          /\ cls' = [cls EXCEPT ![c] = "R"] /\ kind' = [kind EXCEPT ![p] = "R"]      \* (free cells look alike)
          /\ towake' = [towake EXCEPT ![p] = IF j THEN b ELSE 0]
          /\ free' = <<c>> \o free /\ cell' = [cell EXCEPT ![p] = 0]
          /\ pc' = [pc EXCEPT ![p] = IF j THEN "wakeidle" ELSE "idle"]
          /\ order' = Remove(order, p)
(* a reader that was woken lets the next reader in *)
Chain(p) == /\ pc[p] = "chain"
            /\ LET b == nxt[cell[p]]  j == b # 0 /\ cls[b] = "R" /\ waiting[b] IN
               /\ waiting' = [x \in C |-> IF j /\ x = b THEN FALSE ELSE waiting[x]]
               /\ towake' = [towake EXCEPT ![p] = IF j THEN b ELSE 0]
               /\ pc' = [pc EXCEPT ![p] = IF j THEN "wake" ELSE "hold"]
            /\ UNCHANGED <<kind, cell, cls, nxt, prv, tail, free, order>>
Release(p) ==
  /\ pc[p] = "hold"
  /\ LET c == cell[p]  a == prv[c]  b == nxt[c]
         j == b # 0 /\ (kind[p] = "W" \/ (waiting[b] /\ (a = 0 \/ cls[b] = "R"))) IN
     /\ nxt' = [x \in C |-> IF x = c THEN 0 ELSE IF kind[p] = "R" /\ x = a THEN b ELSE nxt[x]]
     /\ prv' = [x \in C |-> IF x = c THEN 0 ELSE IF x = b THEN (IF kind[p] = "W" THEN 0 ELSE a) ELSE prv[x]]
     /\ tail' = IF b = 0 /\ tail = c THEN (IF kind[p] = "W" THEN 0 ELSE a) ELSE tail
     /\ waiting' = [x \in C |-> IF x = c \/ (j /\ x = b) THEN FALSE ELSE waiting[x]]
     /\ cls' = [cls EXCEPT ![c] = "R"] /\ kind' = [kind EXCEPT ![p] = "R"]
     /\ towake' = [towake EXCEPT ![p] = IF j THEN b ELSE 0]
     /\ free' = <<c>> \o free /\ cell' = [cell EXCEPT ![p] = 0]
     /\ pc' = [pc EXCEPT ![p] = IF j THEN "wakeidle" ELSE "idle"]
     /\ order' = Remove(order, p)
(* the wake-up goes to whoever sleeps on the cell by then *)
Wake(p) == /\ pc[p] \in {"wake", "wakeidle"}
           /\ pc' = [q \in P |-> IF q = p THEN (IF pc[p] = "wake" THEN "hold" ELSE "idle")
                                 ELSE IF pc[q] = "sleep" /\ cell[q] = towake[p] THEN "chk" ELSE pc[q]]
           /\ towake' = [towake EXCEPT ![p] = 0]
           /\ UNCHANGED <<kind, cell, waiting, cls, nxt, prv, tail, free, order>>
Next == \E p \in P : Enter(p, "R") \/ Enter(p, "W") \/ Look(p) \/ Early(p) \/ Expire(p) \/ GiveUp(p) \/ Chain(p) \/ Release(p) \/ Wake(p)
(* liveness: the steps of the code, but neither new requests, early ends nor time-outs, are taken eventually *)
Fair == \A p \in P : WF_vars(Look(p) \/ GiveUp(p) \/ Chain(p) \/ Release(p) \/ Wake(p))
Spec == Init /\ [][Next]_vars /\ Fair
Holds(p) == pc[p] \in {"hold", "chain", "wake"}
Waits(p) == pc[p] \in {"chk", "sleep", "tmo"}
Conflict(p, q) == kind[p] = "W" \/ kind[q] = "W"
Exclusion == \A p, q \in P : p # q /\ Holds(p) /\ Holds(q) => ~ Conflict(p, q)
Pos(p) == CHOOSE i \in 1..Len(order) : order[i] = p
(* nobody holds the lock before a conflicting request that came earlier *)
Fairness == \A p, q \in P : Holds(q) /\ Waits(p) /\ Conflict(p, q) => Pos(q) < Pos(p)
(* when all is quiet nobody sleeps without a reason *)
Quiet == \A p \in P : pc[p] \in {"idle", "hold", "sleep"}
NoLostWake == Quiet => \A p \in P : pc[p] = "sleep" => \E q \in P : q # p /\ pc[q] \in {"hold", "sleep"} /\ Pos(q) < Pos(p) /\ Conflict(p, q)
(* cells are neither lost nor used twice *)
Cells == LET used == {cell[p] : p \in {q \in P : cell[q] # 0}} IN
         /\ Cardinality(used) = Cardinality({q \in P : cell[q] # 0})
         /\ {free[i] : i \in 1..Len(free)} = C \ used /\ Len(free) = CELLS - Cardinality(used)
         /\ (tail = 0) = (used = {})
(* every waiting request ends *)
Ends == \A p \in P : Waits(p) ~> ~ Waits(p)
=============================================================================
