------------------------------ MODULE DumpTrace ------------------------------
(* Dumps taken while others write.  A write transaction sets all N records to *)
(* its own value; it takes effect at one moment between its call and its      *)
(* return.  A dump sees the committed state at one moment between its call    *)
(* and its return.  Is the recorded concurrent history a behaviour of this?   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, committed, pend       \* pend: [process -> [v, done, saw]] operations in progress (v = 0: a dump)
vars == <<l, n, committed, pend>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Without(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
CInit == Is("cinit") /\ n' = Ev.n /\ committed' = 1 /\ pend' = << >>
Call == /\ Is("call") /\ Ev.p \notin DOMAIN pend
        /\ pend' = Put(pend, Ev.p, [v |-> Ev.v, done |-> FALSE, saw |-> 0]) /\ UNCHANGED <<n, committed>>
(* the moment of effect: not recorded, so it may be anywhere in between *)
Effect(p) == /\ ~ pend[p].done
             /\ IF pend[p].v # 0 THEN committed' = pend[p].v /\ pend' = [pend EXCEPT ![p].done = TRUE]
                ELSE committed' = committed /\ pend' = [pend EXCEPT ![p].done = TRUE, ![p].saw = committed]
             /\ UNCHANGED <<l, n>>
Ret == /\ Is("ret") /\ Ev.p \in DOMAIN pend
       /\ IF Ev.r = 1 THEN /\ pend[Ev.p].done
                           /\ pend[Ev.p].v = 0 => Ev.got = [i \in 1..n |-> pend[Ev.p].saw]
          ELSE ~ pend[Ev.p].done
       /\ pend' = Without(pend, Ev.p) /\ UNCHANGED <<n, committed>>
TraceInit == l = 1 /\ n = 0 /\ committed = 0 /\ pend = << >>
TraceNext == CInit \/ Call \/ (\E p \in DOMAIN pend : Effect(p)) \/ Ret
TraceSpec == TraceInit /\ [][TraceNext]_vars
(* the history was explained if some behaviour consumed the last event *)
ASSUME TLCSet(1, 1)
Mark == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"MAXL", TLCGet(1)>>) /\ TLCGet(1) = Len(Trace) + 1
=============================================================================
