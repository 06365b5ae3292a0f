----------------------------- MODULE JsonTrace -----------------------------
(* Documents: the records of a database that JSON texts are stored in.       *)
(* heap: record number -> [k, doc, par, f]                                   *)
(*   k "a" array, "o" object, "r" any other row; doc: a document (top of a   *)
(*   text); par: made for a query parameter, not data; f: the fields         *)
(*   (atomic values as in JsonText, <<"r", record>> for references)          *)
(* Events carry the difference to the state before: new, gone and chg.       *)
EXTENDS JsonText, Json, IOUtils
VARIABLES l, heap, extra     \* extra: storage used by something else (texts that could not be stored)
vars == <<l, heap, extra>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
MAXREC == 2 * DEPTH          \* levels of records in a document: an object and the pairs in it are two
CMPDEPTH == 7                \* levels that are compared when values are records

Rec(e) == [k |-> e.k, doc |-> e.doc = 1, par |-> e.par = 1, f |-> e.f]
Ids(s) == {s[i].id : i \in 1..Len(s)}
Find(s, id) == LET i == CHOOSE j \in 1..Len(s) : s[j].id = id IN Rec(s[i])
Gone == {Ev.gone[i] : i \in 1..Len(Ev.gone)}
New == Ids(Ev.new)
Chg == Ids(Ev.chg)
Apply == [id \in (DOMAIN heap \ Gone) \cup New |-> IF id \in New THEN Find(Ev.new, id) ELSE IF id \in Chg THEN Find(Ev.chg, id) ELSE heap[id]]
Same == Ev.new = << >> /\ Ev.gone = << >> /\ Ev.chg = << >>

(* ---- structure ---- *)
IsRef(v) == v[1] = "r"
Kids(H, r) == {H[r].f[i][2] : i \in {j \in 1..Len(H[r].f) : IsRef(H[r].f[j])}}
RECURSIVE Below(_, _, _)
Below(H, todo, done) == IF todo = {} THEN done ELSE Below(H, UNION {Kids(H, r) : r \in todo} \ (done \cup todo), done \cup todo)
Closure(H, r) == Below(H, {r}, {})
RECURSIVE Height(_, _, _)
Height(H, r, max) == IF max = 0 THEN 1 ELSE
                     LET S == {Height(H, k, max - 1) : k \in Kids(H, r)} IN 1 + (IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m)
RefsTo(H, r) == {<<p, i>> \in UNION {{p} \X (1..Len(H[p].f)) : p \in DOMAIN H} : H[p].f[i] = <<"r", r>>}
RECURSIVE Unfold(_, _)
UnfoldV(H, v) == IF IsRef(v) THEN Unfold(H, v[2]) ELSE v
Unfold(H, r) ==
  CASE H[r].k = "a" -> <<"a", [i \in 1..Len(H[r].f) |-> UnfoldV(H, H[r].f[i])]>>
    [] H[r].k = "o" -> <<"o", [i \in 1..Len(H[r].f) |->
         LET v == H[r].f[i] IN IF ~ IsRef(v) THEN <<"?">> ELSE
         LET p == H[v[2]] IN IF p.k = "r" /\ Len(p.f) = 3 /\ p.f[1] = <<"n">> /\ p.f[2][1] = "s" THEN <<p.f[2][2], UnfoldV(H, p.f[3])>> ELSE <<"?">>]>>
    [] OTHER -> <<"?">>
RECURSIVE Count(_)
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Count(v) == CASE v[1] = "a" -> 1 + Sum([i \in 1..Len(v[2]) |-> Count(v[2][i])])
              [] v[1] = "o" -> 1 + Sum([i \in 1..Len(v[2]) |-> 1 + Count(v[2][i][2])])
              [] OTHER -> 0

(* ---- storage ---- *)
Max60 == <<49, 49, 53, 50, 57, 50, 49, 53, 48, 52, 54, 48, 54, 56, 52, 54, 57, 55, 53>>
Min60 == <<49, 49, 53, 50, 57, 50, 49, 53, 48, 52, 54, 48, 54, 56, 52, 54, 57, 55, 54>>
Big(v) == v[1] = "i" /\ ~ MagLe(Body(v[2]), IF v[2][1] = 45 THEN Min60 ELSE Max60)
Tot(H, P(_)) == Cardinality({x \in UNION {{r} \X (1..Len(H[r].f)) : r \in DOMAIN H} : P(H[x[1]].f[x[2]])})
Longs(H) == {v \in UNION {{H[r].f[i] : i \in 1..Len(H[r].f)} : r \in DOMAIN H} : v[1] = "s" /\ Len(v[2]) >= 32}
Usage(H) == [cells |-> Tot(H, LAMBDA v : IsRef(v)), words |-> Tot(H, LAMBDA v : Big(v)), dwords |-> Tot(H, LAMBDA v : v[1] = "d"),
             shorts |-> Tot(H, LAMBDA v : v[1] = "s" /\ Len(v[2]) < 32), longs |-> Cardinality(Longs(H))]
Plus(a, b) == [x \in DOMAIN a |-> a[x] + b[x]]
(* idx = 1: indexes exist, they use list cells of their own *)
(* a long text left over from a text that could not be stored becomes part of the data when it is stored again *)
StoreOK(H, X) == LET v == Usage(H)
                     u == Plus(v, X)
                 IN \A x \in DOMAIN u : CASE x = "cells" /\ Ev.idx = 1 -> TRUE
                                           [] x = "longs" -> Ev.use[x] >= v[x] /\ Ev.use[x] <= u[x]
                                           [] OTHER -> Ev.use[x] = u[x]
Exact == heap' = Apply /\ extra' = extra /\ (Ev.acct = 1 => StoreOK(heap', extra))
Nothing == Same /\ UNCHANGED <<heap, extra>> /\ (Ev.acct = 1 => StoreOK(heap, extra))

(* ---- parsing ---- *)
Stored(v, par, doc) ==      \* exactly the records of value v were added, Ev.id is the topmost one
  /\ Gone = {} /\ Chg = {} /\ Ev.id \in New
  /\ LET H == Apply IN /\ \A r \in New : H[r].par = par /\ H[r].doc = (doc /\ r = Ev.id)
                       /\ \A r \in New : Kids(H, r) \subseteq New
                       /\ Cardinality(New) = Count(v)
                       /\ Unfold(H, Ev.id) = v
  /\ Exact
TFresh == Is("fresh") /\ heap' = << >> /\ extra' = [x \in {"cells", "words", "dwords", "shorts", "longs"} |-> 0]
TCheck == Is("check") /\ Nothing /\ (Ev.r = 0) = Denotes(Ev.s, Ev.num).ok
TFile == /\ Is("file")
         /\ LET d == Denotes(Ev.s, Ev.num) IN IF d.ok THEN Ev.r = 0 /\ Stored(d.val, FALSE, TRUE) ELSE Ev.r # 0 /\ Nothing
(* a text that cannot be stored is only refused: it may leave records that belong to nothing *)
TParse == /\ Is("parse")
          /\ LET d == Denotes(Ev.s, Ev.num)
             IN IF d.ok THEN Ev.r = 0 /\ Stored(d.val, Ev.kind = "param", Ev.kind # "fragment")
                ELSE /\ Ev.r # 0 /\ Gone = {} /\ Chg = {} /\ heap' = Apply
                     /\ \A r \in New : Kids(heap', r) \subseteq New
                     /\ LET u == Usage(heap')
                        IN /\ \A x \in DOMAIN u : (x = "cells" /\ Ev.idx = 1) \/ Ev.use[x] >= u[x] + (IF x = "longs" THEN 0 ELSE extra[x])
                           /\ extra' = [x \in DOMAIN u |-> IF x = "cells" /\ Ev.idx = 1 THEN extra[x]
                                                           ELSE IF x = "longs" THEN extra[x] + (IF Ev.use[x] > u[x] THEN Ev.use[x] - u[x] ELSE 0) ELSE Ev.use[x] - u[x]]
TPrint == /\ Is("print") /\ Nothing
          /\ IF heap[Ev.id].doc THEN LET d == DenotesTo(Ev.s, Ev.num, 99) IN d.ok /\ d.val = Unfold(heap, Ev.id) ELSE Ev.s = << >>
(* ---- changing ---- *)
TRow == Is("row") /\ Gone = {} /\ Chg = {} /\ New = {Ev.id} /\ Apply[Ev.id] = [k |-> "r", doc |-> FALSE, par |-> FALSE, f |-> Ev.f] /\ Exact
TSet == /\ Is("set") /\ Ev.r = 0 /\ Gone = {} /\ New = {}
        /\ Chg = IF heap[Ev.id].f[Ev.c + 1] = Ev.v THEN {} ELSE {Ev.id}
        /\ Apply = [heap EXCEPT ![Ev.id].f[Ev.c + 1] = Ev.v]
        /\ Exact
Deletable(r) == /\ heap[r].doc /\ RefsTo(heap, r) = {}
                /\ \A k \in Closure(heap, r) \ {r} : Cardinality(RefsTo(heap, k)) = 1
                /\ Height(heap, r, MAXREC) <= MAXREC
TDelete == /\ Is("delete")
           /\ IF Deletable(Ev.id) THEN Ev.r = 0 /\ Gone = Closure(heap, Ev.id) /\ New = {} /\ Chg = {} /\ Exact
              ELSE Ev.r # 0 /\ Nothing
(* ---- asking ---- *)
TScan == /\ Is("scan") /\ Nothing
         /\ LET S == {Ev.r[i] : i \in 1..Len(Ev.r)} IN Cardinality(S) = Len(Ev.r) /\ S = {r \in DOMAIN heap : ~ heap[r].par}
TFind == /\ Is("find") /\ Nothing
         /\ LET S == {d \in DOMAIN heap : heap[d].doc /\ Ev.id \in Closure(heap, d)} IN IF S = {} THEN Ev.r = 0 ELSE Ev.r \in S
RECURSIVE Eq(_, _, _)
Eq(a, b, d) == \/ a = b
               \/ /\ IsRef(a) /\ IsRef(b) /\ d > 0
                  /\ LET x == heap[a[2]].f  y == heap[b[2]].f IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : Eq(x[i], y[i], d - 1)
Pair(r, key, val) ==        \* row r is the pair key: val, or key: [..., val, ...]
  /\ heap[r].k = "r" /\ ~ heap[r].par /\ Len(heap[r].f) >= 3
  /\ Eq(heap[r].f[2], key, CMPDEPTH)
  /\ \/ Eq(heap[r].f[3], val, CMPDEPTH)
     \/ LET v == heap[r].f[3] IN IsRef(v) /\ heap[v[2]].k = "a" /\ \E i \in 1..Len(heap[v[2]].f) : Eq(heap[v[2]].f[i], val, CMPDEPTH)
TQuery == /\ Is("query") /\ Nothing
          /\ LET P == [i \in 1..Len(Ev.args) |-> {r \in DOMAIN heap : Pair(r, Ev.args[i][1], Ev.args[i][2])}]
                 S == {d \in DOMAIN heap : heap[d].doc /\ ~ heap[d].par /\ LET C == Closure(heap, d) IN \A i \in 1..Len(Ev.args) : P[i] \cap C # {}}
                 R == {Ev.r[i] : i \in 1..Len(Ev.r)}
             IN R = S /\ Len(Ev.r) = Cardinality(S)
(* ---- indexes: the rows they hold ---- *)
Plain(r) == heap[r].k = "r" /\ ~ heap[r].doc /\ ~ heap[r].par
Entries(cols, r) ==         \* hash entries of a row: one for each combination of array elements
  LET n(c) == LET v == heap[r].f[c + 1] IN IF IsRef(v) /\ heap[v[2]].k = "a" THEN Len(heap[v[2]].f) ELSE 1
  IN IF Len(cols) = 1 THEN n(cols[1]) ELSE n(cols[1]) * n(cols[2])
LastCol(cols) == IF Len(cols) = 1 \/ cols[1] > cols[2] THEN cols[1] ELSE cols[2]
TIndex == /\ Is("index") /\ Nothing
          /\ LET R == {r \in DOMAIN heap : Len(heap[r].f) > LastCol(Ev.cols) /\ (IF Ev.type \in {51, 61} THEN Plain(r) ELSE ~ heap[r].par)}
                 H == {r \in R : Entries(Ev.cols, r) > 0}
                 S == {Ev.r[i] : i \in 1..Len(Ev.r)}
             IN IF Ev.type = 61 THEN S = H ELSE S = R /\ Len(Ev.r) = Cardinality(R)

TraceInit == l = 1 /\ heap = << >> /\ extra = << >>
TraceNext == TFresh \/ TCheck \/ TFile \/ TParse \/ TPrint \/ TRow \/ TSet \/ TDelete \/ TScan \/ TFind \/ TQuery \/ TIndex
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
