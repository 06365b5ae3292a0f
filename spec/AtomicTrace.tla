----------------------------- MODULE AtomicTrace -----------------------------
(* Concurrent updates of fields without a lock: every call takes effect at    *)
(* one moment between its start and its return.  Is the recorded history,     *)
(* with its results and the final contents, explained by such moments?        *)
(* Values: small integers as themselves, those near the limits of the range   *)
(* as +-5000000 -+ distance, other immediate values 2000000.., others         *)
(* 3000000..                                                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fld, log, pend      \* fld: contents; log: updates must be logged; pend: [process -> [k, c, a, b, done, r]]
vars == <<l, fld, log, pend>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Without(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
IsInt(v) == v < 2000000 \/ v >= 4000000
IsImm(v) == v < 3000000 \/ v >= 4000000
Fits(v) == v <= 5000000 /\ v >= -5000000
Indexed(c) == c \in {2, 3}        \* a column with an index, and one whose index has a template
Init0 == Is("ainit") /\ fld' = Ev.f /\ log' = (Ev.log = 1) /\ pend' = << >>
Inv == /\ Is("inv") /\ Ev.p \notin DOMAIN pend
       /\ pend' = Put(pend, Ev.p, [k |-> Ev.k, c |-> Ev.c, a |-> Ev.a, b |-> Ev.b, done |-> FALSE, r |-> 0]) /\ UNCHANGED <<fld, log>>
(* what the call does if it happens now: <<result (0 done, -1 refused), new contents>> *)
May(o) == ~ Indexed(o.c) /\ ~ log
Out(o) == LET v == fld[o.c + 1] IN
  CASE o.k = "g" -> <<v, v>>
    [] o.k = "u" -> IF May(o) /\ IsImm(o.a) /\ IsImm(o.b) /\ v = o.b THEN <<0, o.a>> ELSE <<-1, v>>
    [] o.k = "s" -> IF May(o) /\ IsImm(o.a) /\ IsImm(v) THEN <<0, o.a>> ELSE <<-1, v>>
    [] o.k = "a" -> IF May(o) /\ IsInt(v) /\ Fits(v + o.a) THEN <<0, v + o.a>> ELSE <<-1, v>>
Effect(p) == /\ ~ pend[p].done
             /\ LET x == Out(pend[p]) IN pend' = [pend EXCEPT ![p].done = TRUE, ![p].r = x[1]] /\ fld' = [fld EXCEPT ![pend[p].c + 1] = x[2]]
             /\ UNCHANGED <<l, log>>
Ret == /\ Is("ret") /\ Ev.p \in DOMAIN pend /\ pend[Ev.p].done
       /\ IF pend[Ev.p].k = "g" THEN Ev.r = pend[Ev.p].r ELSE IF pend[Ev.p].r = 0 THEN Ev.r = 0 ELSE Ev.r < 0
       /\ pend' = Without(pend, Ev.p) /\ UNCHANGED <<fld, log>>
Fin == Is("fin") /\ DOMAIN pend = {} /\ Ev.f = fld /\ UNCHANGED <<fld, log, pend>>
TraceInit == l = 1 /\ fld = <<0, 0, 0, 0>> /\ log = FALSE /\ pend = << >>
TraceNext == Init0 \/ Inv \/ (\E p \in DOMAIN pend : Effect(p)) \/ Ret \/ Fin
TraceSpec == TraceInit /\ [][TraceNext]_vars
ASSUME TLCSet(1, 1)
Mark == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"MAXL", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
