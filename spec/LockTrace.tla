------------------------------ MODULE LockTrace ------------------------------
(* Recorded histories of the database lock: calls and returns of several      *)
(* processes, with the (virtual) time in milliseconds.  Histories are judged  *)
(* for one aspect at a time:                                                  *)
(*   exclusion  a lock is granted only while no conflicting lock is held      *)
(*   progress   nobody waits without a reason or beyond its time, nobody      *)
(*              gives up before its time, nothing is left behind              *)
(*   order      nobody is granted while a conflicting request that was        *)
(*              waiting when it arrived still waits                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
Proto == IOEnv.PROTO
SL == 100            \* spinning waiters look again every 50 ms at most
VARIABLES l, hold, pend, n, strict, cap, idle
(* hold: [process -> "R"/"W"];  pend: [process -> [k, to, t: time of the call, s: its number, w: waiting, x: interrupted, f: since when nothing conflicts (-1: something does)]] *)
(* idle: since when nobody holds the lock (-1: somebody does) *)
vars == <<l, hold, pend, n, strict, cap, idle>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Without(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Conflict(a, b) == a = "W" \/ b = "W"
Free(H, P, p) == /\ \A q \in DOMAIN H : ~ Conflict(H[q], P[p].k)
                 /\ \A q \in DOMAIN P : q = p \/ ~ Conflict(P[q].k, P[p].k)
(* the bookkeeping after a step to holders H and requests P at time t *)
Settle(H, P, t) == /\ hold' = H
                   /\ pend' = [p \in DOMAIN P |-> [P[p] EXCEPT !.f = IF ~ Free(H, P, p) THEN -1 ELSE IF @ = -1 THEN t ELSE @]]
                   /\ idle' = IF DOMAIN H # {} THEN -1 ELSE IF idle = -1 THEN t ELSE idle
Progress == Aspect = "progress"
(* time passed only for a reason *)
Timely(t) == Progress /\ strict =>
             \A p \in DOMAIN pend :
               /\ pend[p].f # -1 => t - pend[p].f <= SL
               /\ ~ pend[p].x => t - pend[p].t <= pend[p].to + SL
               /\ idle # -1 => t - (IF pend[p].t > idle THEN pend[p].t ELSE idle) <= SL
(* can q be granted although p waits? *)
Overtakes(q, p) == /\ pend[p].w # 0 /\ pend[p].w < pend[q].s
                   /\ Conflict(pend[p].k, pend[q].k)
                   /\ ~ pend[p].x /\ Ev.now - pend[p].t < pend[p].to - SL        \* p has not given up
                   /\ \/ Proto = "tfqueue"
                      \/ Proto = "wpspin" /\ pend[p].k = "W" /\ pend[q].k = "R"
Reset == /\ Is("reset") /\ hold' = << >> /\ pend' = << >> /\ n' = 0 /\ strict' = (Ev.strict = 1) /\ cap' = Ev.cap /\ idle' = 0
Req == /\ Is("req") /\ Timely(Ev.now) /\ Ev.p \notin DOMAIN pend /\ Ev.p \notin DOMAIN hold
       /\ Settle(hold, Put(pend, Ev.p, [k |-> Ev.k, to |-> Ev.to, t |-> Ev.now, s |-> n + 1, w |-> 0, x |-> FALSE, f |-> -1]), Ev.now)
       /\ n' = n + 1 /\ UNCHANGED <<strict, cap>>
Wait == /\ Is("wait") /\ Timely(Ev.now) /\ Ev.p \in DOMAIN pend /\ n' = n + 1
        /\ pend' = [pend EXCEPT ![Ev.p].w = n + 1] /\ UNCHANGED <<hold, strict, cap, idle>>
Intr == /\ Is("intr") /\ Timely(Ev.now) /\ Ev.p \in DOMAIN pend
        /\ pend' = [pend EXCEPT ![Ev.p].x = TRUE] /\ UNCHANGED <<hold, strict, cap, idle, n>>
Got == /\ Is("got") /\ Timely(Ev.now) /\ Ev.p \in DOMAIN pend
       /\ Aspect = "exclusion" => \A q \in DOMAIN hold : ~ Conflict(hold[q], pend[Ev.p].k)
       /\ Aspect = "order" => \A p \in DOMAIN pend \ {Ev.p} : ~ Overtakes(Ev.p, p)
       /\ Settle(Put(hold, Ev.p, pend[Ev.p].k), Without(pend, Ev.p), Ev.now) /\ UNCHANGED <<n, strict, cap>>
Fail == /\ Is("fail") /\ Timely(Ev.now) /\ Ev.p \in DOMAIN pend
        /\ Progress /\ ~ pend[Ev.p].x => Ev.now - pend[Ev.p].t >= pend[Ev.p].to - SL
        /\ Settle(hold, Without(pend, Ev.p), Ev.now) /\ UNCHANGED <<n, strict, cap>>
Rel == /\ Is("rel") /\ Timely(Ev.now) /\ Ev.p \in DOMAIN hold
       /\ Settle(Without(hold, Ev.p), pend, Ev.now) /\ UNCHANGED <<n, strict, cap>>
Done == /\ Is("done") /\ (Progress => Ev.r = 1) /\ UNCHANGED <<hold, pend, n, strict, cap, idle>>
(* afterwards: a write lock is granted at once and as many read locks as in a fresh database *)
Probe == /\ Is("probe")
         /\ Progress => (DOMAIN pend = {} /\ DOMAIN hold = {} /\ Ev.w = 1 /\ Ev.n = cap /\ Ev.dt <= SL)
         /\ UNCHANGED <<hold, pend, n, strict, cap, idle>>
(* nobody can ever continue *)
Stuck == (Is("stuck") \/ Is("livelock")) /\ ~ Progress /\ UNCHANGED <<hold, pend, n, strict, cap, idle>>
TraceInit == l = 1 /\ hold = << >> /\ pend = << >> /\ n = 0 /\ strict = FALSE /\ cap = 0 /\ idle = 0
TraceNext == Reset \/ Req \/ Wait \/ Intr \/ Got \/ Fail \/ Rel \/ Done \/ Probe \/ Stuck
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
