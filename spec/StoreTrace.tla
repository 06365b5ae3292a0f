----------------------------- MODULE StoreTrace -----------------------------
(* Trace validation: is a recorded history of calls on the real library a    *)
(* behaviour of Store?  Every event carries arguments and results; every     *)
(* event is one action of Store plus the check of its result.  Structural    *)
(* snapshots (T-tree nodes, hash index rows, full contents) are compared     *)
(* with what the abstract state implies.                                     *)
EXTENDS Store, TLC, Json, IOUtils, SequencesExt, Functions, TTreeShape
Trace == ndJsonDeserialize(IOEnv.TRACE)
Tab == JsonDeserialize(IOEnv.VALS)      \* [keys, rank, wild, imm, ...]: the value table of this trace
TraceVType == Tab.type
TraceVRank == Tab.rank
TraceWild == {Tab.wild[i] : i \in 1..Len(Tab.wild)}
Imm == {Tab.imm[i] : i \in 1..Len(Tab.imm)}       \* atomic values kept inside the field itself
ILL == -999999999                       \* "no value" results
IsImm1(v) == v = 0 \/ v \in Imm
VARIABLES l,
          open                          \* open queries: [query -> rows not yet fetched, expected number of rows left]
vars == <<svars, l, open>>

(* The ranks used by the specification must agree with the order of the keys *)
(* (numbers compared lexicographically, a proper prefix first).  Tab.order   *)
(* lists the values by (type, key); checking neighbours settles all pairs.   *)
RECURSIVE LexLess(_, _, _)
LexLess(s, t, i) == IF i > Len(t) THEN FALSE ELSE IF i > Len(s) THEN TRUE
                    ELSE IF s[i] # t[i] THEN s[i] < t[i] ELSE LexLess(s, t, i + 1)
KeysOK == \A k \in 1..(Len(Tab.order) - 1) :
  LET a == Tab.order[k]  b == Tab.order[k + 1]
  IN /\ Tab.keys[a][1] = Tab.type[a] /\ Tab.keys[b][1] = Tab.type[b]
     /\ \/ Tab.keys[a] = Tab.keys[b] /\ Tab.rank[a] = Tab.rank[b]
        \/ LexLess(Tab.keys[a], Tab.keys[b], 1) /\ (Tab.type[a] = Tab.type[b] => Tab.rank[a] < Tab.rank[b])
ASSUME KeysOK

Ev == Trace[l]
IsQ(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Is(op) == IsQ(op) /\ UNCHANGED open
Range1(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Range1(s)) = Len(s)
ExactSet(s, S) == NoDup(s) /\ Range1(s) = S

TReset == IsQ("reset") /\ open' = << >> /\ recs' = << >> /\ addr' = << >> /\ idx' = << >>
TCreate == /\ Is("create")
           /\ IF Ev.n >= 0 THEN Ev.h > 0 /\ Create(Ev.h, Ev.n, Ev.a)
              ELSE Ev.h = 0 /\ UNCHANGED svars
TSet == /\ Is("set")
        /\ IF HasCol(Ev.h, Ev.c) THEN Ev.r = 0 /\ SetField(Ev.h, Ev.c, Ev.v)
           ELSE Ev.r < 0 /\ UNCHANGED svars
TSetNew == /\ Is("setnew")
           /\ IF HasCol(Ev.h, Ev.c) /\ Fld(Ev.h, Ev.c) = NULL THEN Ev.r = 0 /\ SetField(Ev.h, Ev.c, Ev.v)
              ELSE Ev.r < 0 /\ UNCHANGED svars
TGet == /\ Is("get")
        /\ Ev.v = IF HasCol(Ev.h, Ev.c) THEN Fld(Ev.h, Ev.c) ELSE ILL
        /\ UNCHANGED svars
TLen == Is("len") /\ Ev.n = Len(recs[Ev.h]) /\ UNCHANGED svars
TDel == /\ Is("del")
        /\ IF Parents(Ev.h) = {} THEN Ev.r = 0 /\ Delete(Ev.h)
           ELSE Ev.r < 0 /\ UNCHANGED svars
TScan == Is("scan") /\ ExactSet(Ev.r, Live) /\ UNCHANGED svars
TPar == Is("par") /\ ExactSet(Ev.r, Parents(Ev.h)) /\ UNCHANGED svars
TSnap == /\ Is("snap") /\ UNCHANGED svars
         /\ {Ev.hs[i] : i \in 1..Len(Ev.hs)} = Live
         /\ \A i \in 1..Len(Ev.hs) : recs[Ev.hs[i]] = Ev.fs[i]
TCmp == /\ Is("cmp") /\ UNCHANGED svars
        /\ Ev.r = Cmp(Ev.a, Ev.b, Ev.d)
(* a transient value was encoded (and freed again): no effect; it must read back as itself *)
TEnc == Is("enc") /\ Ev.v = Ev.w /\ UNCHANGED svars
(* copying decoders: the whole text and its terminator (none for blobs) when the buffer has room, otherwise an error; *)
(* nothing is ever written outside the buffer (can: the bytes around it are as they were)                        *)
TCopy == /\ Is("copy") /\ UNCHANGED svars /\ Ev.can = 1
         /\ LET n == IF Ev.part = 0 THEN Tab.len[Ev.v] ELSE Tab.elen[Ev.v]
                need == IF Ev.part = 0 /\ TypeOf(Ev.v) = 8 THEN n ELSE n + 1
            IN IF Ev.b >= 1 /\ Ev.b >= need THEN Ev.r = n /\ Ev.ok = 1 ELSE Ev.r = -1
TLens == Is("lens") /\ Ev.n = Tab.len[Ev.v] /\ Ev.e = Tab.elen[Ev.v] /\ UNCHANGED svars
(* encoding an equal value again gives the same stored object, for values kept in place and for shared strings *)
TSame == Is("same") /\ (IsImm1(Ev.v) \/ Tab.long[Ev.v] = 1 => Ev.r = 1) /\ UNCHANGED svars
TRefuse == Is("refused") /\ Ev.r = 1 /\ UNCHANGED svars

(* ---- dumps: going through one changes nothing, locks are free afterwards, a damaged one is recognised ---- *)
TMoved == /\ Is("moved") /\ UNCHANGED svars
          /\ Ev.r = 0 /\ Ev.locks = 1
          /\ Ev.how \in {"other", "fit"} => Ev.same = 1
          /\ "log" \in DOMAIN Ev => Ev.log = 1
TChk == /\ Is("chk") /\ UNCHANGED svars /\ Ev.d = 0
        /\ CASE Ev.why = "good" -> Ev.r = 0 /\ Ev.mn = Ev.fsize /\ Ev.mx = Ev.size
             [] Ev.why \in {"missing", "short"} -> Ev.r = -1
             [] Ev.why \in {"mark", "version", "features"} -> Ev.r = -2
             [] OTHER -> Ev.r = -3                        \* cut, long, checksum, data
        /\ "kept" \in DOMAIN Ev => Ev.kept = 1
        /\ "imp" \in DOMAIN Ev => Ev.imp = -1

(* ---- shared values: one stored copy per distinct long value, owned by every field (and every   *)
(* ---- stored value's second part) that uses it                                                 *)
IsLong(v) == v > 0 /\ Tab.long[v] = 1
(* index templates hold values as well, each distinct template once *)
Tmpls == {idx[i].tmpl : i \in DOMAIN idx}
Held == {v \in UNION {Range1(recs[h]) : h \in Live} \cup UNION {Range1(t) : t \in Tmpls} : IsLong(v)}
InTmpls(P(_)) == LET S == UNION {{<<t, i>> : i \in 1..Len(t)} : t \in Tmpls} IN Cardinality({x \in S : P(x[1][x[2]])})
FieldOwners(v) == FoldFunction(LAMBDA s, n : n + Cardinality({i \in 1..Len(s) : s[i] = v}), 0, recs) + InTmpls(LAMBDA x : x = v)
Stored == Held \cup {v \in {Tab.extra[w] : w \in Held} : IsLong(v)}
Owners(v) == FieldOwners(v) + Cardinality({w \in Held : Tab.extra[w] = v})
TStrs == /\ Is("strs") /\ UNCHANGED svars
         /\ ExactSet([i \in 1..Len(Ev.r) |-> Ev.r[i][1]], Stored)
         /\ \A i \in 1..Len(Ev.r) : Ev.r[i][2] = Owners(Ev.r[i][1])

(* ---- storage: everything in use belongs to something that exists ---- *)
Uses(k) == FoldFunction(LAMBDA s, n : n + Cardinality({i \in 1..Len(s) : s[i] > 0 /\ Tab.cls[s[i]] = k}), 0, recs) + InTmpls(LAMBDA v : v > 0 /\ Tab.cls[v] = k)
RefFields == FoldFunction(LAMBDA s, n : n + Cardinality({i \in 1..Len(s) : s[i] < 0}), 0, recs)
AcctOK(lostkeys) ==
         /\ ExactSet(Ev.recs, {addr[h] : h \in Live})
         /\ Ev.longs = Cardinality(Stored)
         /\ Ev.words = Uses("word") /\ Ev.dwords = Uses("dword") /\ Ev.shorts = Uses("short") + Cardinality({v \in Stored : Tab.extra[v] > 0 /\ Tab.cls[Tab.extra[v]] = "short"})
         /\ Ev.hdrs = Cardinality(DOMAIN idx)
         /\ DOMAIN idx = {} => /\ Ev.other = Ev.special /\ Ev.cells = RefFields
                               /\ Ev.tnodes = 0 /\ Ev.tmpls = 0 /\ Ev.keys <= lostkeys
TAcct == Is("acct") /\ UNCHANGED svars /\ AcctOK(0)

(* ---- lock-free field updates, one at a time ---- *)
IsImm(v) == v = 0 \/ v \in Imm
UpdOK(h, c, v) == HasCol(h, c) /\ IsImm(v) /\ IsImm(Fld(h, c)) /\ ~ (c <= MAX_COL /\ IdxCol(c))
TUpd == /\ Is("upd")
        /\ IF UpdOK(Ev.h, Ev.c, Ev.v) /\ IsImm(Ev.o) /\ Fld(Ev.h, Ev.c) = Ev.o
           THEN Ev.r = 0 /\ SetField(Ev.h, Ev.c, Ev.v)
           ELSE Ev.r < 0 /\ UNCHANGED svars
TASet == /\ Is("aset")
         /\ IF UpdOK(Ev.h, Ev.c, Ev.v) THEN Ev.r = 0 /\ SetField(Ev.h, Ev.c, Ev.v)
            ELSE Ev.r < 0 /\ UNCHANGED svars
(* add: the sum is given as a value (Ev.s), 0 if the field holds no small integer or the sum is not one *)
TAAdd == /\ Is("aadd")
         /\ IF Ev.s # 0 /\ UpdOK(Ev.h, Ev.c, Ev.s) THEN Ev.r = 0 /\ SetField(Ev.h, Ev.c, Ev.s)
            ELSE Ev.r < 0 /\ UNCHANGED svars

(* ---- indexes ---- *)
TMkIdx == /\ Is("mkidx")
          /\ IF CreateOK(Ev.cols, Ev.type, Ev.tmpl, Ev.hast = 1)
             THEN Ev.r = 0 /\ Ev.i > 0 /\ CreateIndex(Ev.i, Ev.cols, Ev.type, Trim(Ev.tmpl))
             ELSE Ev.r # 0 /\ UNCHANGED svars
TDrop == /\ Is("drop")
         /\ \/ Ev.r = 0 /\ DropIndex(Ev.i)
            \/ /\ Ev.r # 0 /\ UNCHANGED svars        \* hash indexes may refuse; then they stay as they are
               /\ Ev.i \in DOMAIN idx => idx[Ev.i].type \in {HASH, HASHJ}
TAll == Is("allidx") /\ ExactSet(Ev.r, DOMAIN idx) /\ UNCHANGED svars
TLook == /\ Is("look") /\ UNCHANGED svars
         /\ LET S == {i \in DOMAIN idx : /\ (Ev.tmpl = <<>> \/ Fixed(Ev.tmpl) # {})   \* a template of wildcards only names no index
                                       /\ NoDup(Ev.cols)
                                       /\ SameIndex(i, Ev.cols, IF Ev.type = 0 THEN idx[i].type ELSE Ev.type, Trim(Ev.tmpl))}
            IN IF S = {} THEN Ev.r = -1 ELSE Ev.r \in S
TType == Is("idxtype") /\ Ev.r = (IF Ev.i \in DOMAIN idx THEN idx[Ev.i].type ELSE -1) /\ UNCHANGED svars
TTmpl == Is("idxtmpl") /\ Ev.i \in DOMAIN idx /\ SameTmpl(Ev.r, idx[Ev.i].tmpl) /\ UNCHANGED svars
TTTree == /\ Is("ttree") /\ UNCHANGED svars
          /\ LET c == idx[Ev.i].cols[1]
                 V(h) == Fld(h, c)
             IN /\ ExactSet(Flat(Ev.nodes), IndexContent(Ev.i))
                /\ ShapeOK(Ev.nodes, Ev.mn, Ev.mx, Ev.cap, V, Compare)
THash == Is("hashidx") /\ ExactSet(Ev.r, IndexContent(Ev.i)) /\ UNCHANGED svars
(* hash keys: the same value; the language of a string is not part of the key *)
KeyEq(v, w) == v = w \/ (TypeOf(v) = 5 /\ TypeOf(w) = 5 /\ VRank[v] = VRank[w])
THSearch == /\ Is("hsearch") /\ UNCHANGED svars
            /\ LET S == {h \in IndexContent(Ev.i) : \A k \in 1..Len(Ev.vals) : KeyEq(Fld(h, SortSeq(idx[Ev.i].cols, <)[k]), Ev.vals[k])}
               IN ExactSet(Ev.r, S)

(* ---- queries ---- *)
TQuery == /\ Is("query") /\ UNCHANGED svars
          /\ LET S == QueryRows(Ev.conds, Ev.m)
                 n == IF Ev.limit > 0 /\ Ev.limit < Cardinality(S) THEN Ev.limit ELSE Cardinality(S)
             IN /\ NoDup(Ev.r) /\ Range1(Ev.r) \subseteq S
                /\ Len(Ev.r) = n /\ Ev.cnt = n
TFind == /\ Is("find") /\ UNCHANGED svars
         /\ ExactSet(Ev.r, {h \in Live : HasCol(h, Ev.c) /\ Test(Ev.cond, Fld(h, Ev.c), Ev.v)})

(* a query fixes its rows when it is made; later changes do not affect what is fetched *)
TQOpen == /\ IsQ("qopen") /\ UNCHANGED svars /\ Ev.q > 0 /\ Ev.q \notin DOMAIN open
          /\ LET S == QueryRows(Ev.conds, Ev.m)
                 n == IF Ev.limit > 0 /\ Ev.limit < Cardinality(S) THEN Ev.limit ELSE Cardinality(S)
             IN /\ Ev.cnt = n
                /\ open' = [q \in DOMAIN open \cup {Ev.q} |-> IF q = Ev.q THEN [rows |-> S, n |-> n] ELSE open[q]]
TQFetch == /\ IsQ("qfetch") /\ UNCHANGED svars
           /\ NoDup(Ev.r) /\ Range1(Ev.r) \subseteq open[Ev.q].rows
           /\ Len(Ev.r) = IF Ev.n < open[Ev.q].n THEN Ev.n ELSE open[Ev.q].n
           /\ open' = [open EXCEPT ![Ev.q] = [rows |-> @.rows \ Range1(Ev.r), n |-> @.n - Len(Ev.r)]]
TQClose == IsQ("qclose") /\ UNCHANGED svars /\ open' = Restrict(open, DOMAIN open \ {Ev.q})

TraceInit == Init /\ l = 1 /\ open = << >>
TraceNext == \/ TReset \/ TAcct \/ TCreate \/ TSet \/ TSetNew \/ TGet \/ TLen \/ TDel \/ TScan \/ TPar \/ TSnap \/ TCmp \/ TEnc \/ TCopy \/ TLens \/ TSame \/ TRefuse
             \/ TMoved \/ TChk \/ TUpd \/ TASet \/ TAAdd
             \/ TMkIdx \/ TDrop \/ TAll \/ TLook \/ TType \/ TTmpl \/ TTTree \/ THash \/ THSearch \/ TStrs \/ TQOpen \/ TQFetch \/ TQClose \/ TQuery \/ TFind
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
