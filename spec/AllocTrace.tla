----------------------------- MODULE AllocTrace -----------------------------
(* Recorded histories of the allocators: allocation returns storage nobody   *)
(* else has, releases give it back, and every snapshot is in order.          *)
EXTENDS Alloc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, used     \* used: [area -> [offset -> bytes asked for]]
vars == <<l, used>>
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Need(n) == IF n * 8 <= MINBLK THEN MINBLK ELSE n * 8
Range(s) == {s[i] : i \in 1..Len(s)}
U(a) == used[a]
TReset == Is("reset") /\ used' = [a \in 0..9 |-> << >>]
(* areas used by the database itself: what they hold at the start stays *)
TBase == Is("base") /\ used' = [used EXCEPT ![Ev.a] = [o \in Range(Ev.r) |-> 0]]
TAlloc == /\ Is("alloc")
          /\ IF Ev.off = 0
             THEN /\ UNCHANGED used
                  /\ Ev.n < 0 \/ Ev.n > 1000000
                     \/ \* refused: no free block that a search by size class must find, and no room to grow
                        /\ \A s \in Range(Ev.free) : s < 4 * Need(Ev.n)
                        \* (growth is tried with sizes that are halved until they fit)
                        /\ \/ Ev.room < 2 * 8192 + 16
                           \/ Ev.room < 2 * (Need(Ev.n) + 72) + 16
                           \/ Ev.nsubs >= 64
             ELSE /\ Ev.off % 8 = 0 /\ Ev.n >= 0
                  /\ \A o \in DOMAIN U(Ev.a) : o + Need(U(Ev.a)[o]) <= Ev.off \/ Ev.off + Need(Ev.n) <= o
                  /\ used' = [used EXCEPT ![Ev.a] = [o \in DOMAIN @ \cup {Ev.off} |-> IF o = Ev.off THEN Ev.n ELSE @[o]]]
(* a new sub-area is taken only if no free block could serve *)
TGrow == Is("grow") /\ UNCHANGED used /\ \A s \in Range(Ev.free) : s < 4 * Need(Ev.n)
TFree == /\ Is("free") /\ Ev.off \in DOMAIN U(Ev.a)
         /\ Ev.r = 0 /\ Ev.same = 1                  \* what was written into it is still there
         /\ used' = [used EXCEPT ![Ev.a] = [o \in DOMAIN @ \ {Ev.off} |-> @[o]]]
THeap == /\ Is("heap") /\ UNCHANGED used
         /\ HeapOK(Ev.subs, Ev.walks, Ev.buckets, Ev.dv, Ev.dvsize)
         /\ LET W == UsedOf(Ev.walks) IN
            /\ {w[1] : w \in W} = DOMAIN U(Ev.a)
            /\ \A w \in W : w[2] >= Need(U(Ev.a)[w[1]])
TFAlloc == /\ Is("falloc")
           /\ IF Ev.off = 0 THEN UNCHANGED used /\ (Ev.room < 2 * 8192 + 16 \/ Ev.nsubs >= 64) /\ Ev.nfree = 0
              ELSE /\ Ev.off \notin DOMAIN U(Ev.a)
                   /\ used' = [used EXCEPT ![Ev.a] = [o \in DOMAIN @ \cup {Ev.off} |-> 0]]
TFFree == /\ Is("ffree") /\ Ev.off \in DOMAIN U(Ev.a)
          /\ used' = [used EXCEPT ![Ev.a] = [o \in DOMAIN @ \ {Ev.off} |-> 0]]
TFix == /\ Is("fix") /\ UNCHANGED used /\ FixOK(Ev.subs, Ev.len, Ev.free, DOMAIN U(Ev.a))
TSeg == /\ Is("seg") /\ UNCHANGED used /\ SegOK(Ev.all, Ev.hdr, Ev.free, Ev.size)
TraceInit == l = 1 /\ used = [a \in 0..9 |-> << >>]
TraceNext == TReset \/ TBase \/ TAlloc \/ TGrow \/ TFree \/ THeap \/ TFAlloc \/ TFFree \/ TFix \/ TSeg
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
