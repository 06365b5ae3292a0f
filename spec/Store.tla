------------------------------- MODULE Store -------------------------------
(* The abstract state of one WhiteDB database and the effect of every data   *)
(* operation on it.                                                          *)
(*                                                                           *)
(* Values are integers: 0 is NULL, a positive number names an atomic value   *)
(* (VType: its type code, VRank: its position in the documented order of its *)
(* type), a negative number -h is a reference to record h.                   *)
(* Indexes are described by what they must contain; how the code keeps them  *)
(* is specified in TTree.tla and bound to this module in StoreTrace.tla.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS VType, VRank,      \* functions on 1..N: type code, rank within the type
          WILD               \* set of values acting as wildcards (type VAR)
VARIABLES recs,              \* [record handle -> sequence of values]
          addr,              \* [record handle -> address (only ever used as last resort in ordering)]
          idx                \* [index handle -> [type, cols, tmpl]]
svars == <<recs, addr, idx>>

REC_DEPTH == 7               \* how deep record comparison looks
MAX_COL == 127               \* highest column that can be indexed
MAX_COLS == 10               \* most columns in one index
NULL == 0
TypeOf(v) == IF v = 0 THEN 1 ELSE IF v < 0 THEN 2 ELSE VType[v]
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

(* ---- comparison: one total order over all values ---------------------- *)
RECURSIVE Cmp(_, _, _), CmpFields(_, _, _, _)
Cmp(a, b, d) ==
  IF a = b THEN 0
  ELSE IF TypeOf(a) # TypeOf(b) THEN Sign(TypeOf(a) - TypeOf(b))
  ELSE IF a > 0 THEN Sign(VRank[a] - VRank[b])
  ELSE IF d = 0 THEN Sign(addr[-a] - addr[-b])
  ELSE IF Len(recs[-a]) # Len(recs[-b]) THEN Sign(Len(recs[-a]) - Len(recs[-b]))
  ELSE CmpFields(recs[-a], recs[-b], 1, d)
CmpFields(s, t, i, d) ==
  IF i > Len(s) THEN 0
  ELSE IF s[i] = t[i] THEN CmpFields(s, t, i + 1, d)      \* identical, whatever the depth
  ELSE LET c == Cmp(s[i], t[i], d - 1)
       IN IF c # 0 THEN c ELSE CmpFields(s, t, i + 1, d)
Compare(a, b) == Cmp(a, b, REC_DEPTH)

(* ---- derived relations -------------------------------------------------- *)
Live == DOMAIN recs
Refs(h) == {-recs[h][i] : i \in {j \in 1..Len(recs[h]) : recs[h][j] < 0}}
Parents(h) == {p \in Live : h \in Refs(p)}
HasCol(h, c) == c >= 0 /\ c < Len(recs[h])
Fld(h, c) == recs[h][c + 1]

(* ---- templates and indexes ---------------------------------------------- *)
Fixed(t) == {i \in 1..Len(t) : t[i] \notin WILD}
MatchTmpl(h, t) == \A i \in Fixed(t) : i <= Len(recs[h]) /\ Compare(t[i], recs[h][i]) = 0
Trim(t) == IF Fixed(t) = {} THEN <<>> ELSE SubSeq(t, 1, CHOOSE m \in Fixed(t) : \A i \in Fixed(t) : i <= m)
SameTmpl(s, t) == /\ Fixed(s) = Fixed(t)
                  /\ \A i \in Fixed(s) : Compare(s[i], t[i]) = 0
ColSet(s) == {s[i] : i \in 1..Len(s)}
Indexed(i, h) == /\ \A c \in ColSet(idx[i].cols) : HasCol(h, c)
                 /\ MatchTmpl(h, idx[i].tmpl)
IndexContent(i) == {h \in Live : Indexed(i, h)}
SameIndex(i, cols, type, tmpl) == /\ idx[i].type = type
                                  /\ ColSet(idx[i].cols) = ColSet(cols)
                                  /\ SameTmpl(idx[i].tmpl, tmpl)
TTREE == 50
HASH == 60
HASHJ == 61
CreateOK(cols, type, tmpl, hasTmpl) ==
  /\ type \in {TTREE, HASH, HASHJ}
  /\ Len(cols) >= 1 /\ Len(cols) <= MAX_COLS
  /\ (type = TTREE) => Len(cols) = 1
  /\ Cardinality(ColSet(cols)) = Len(cols)
  /\ \A c \in ColSet(cols) : c >= 0 /\ c <= MAX_COL
  /\ hasTmpl => /\ Len(tmpl) >= 1 /\ Len(tmpl) <= MAX_COL + 1
                /\ Fixed(tmpl) # {}
                /\ \A i \in Fixed(tmpl) : tmpl[i] >= 0 /\ (i - 1) \notin ColSet(cols)
  /\ ~ \E i \in DOMAIN idx : SameIndex(i, cols, type, tmpl)
(* columns indexed by anything, or fixed in the template of anything *)
IdxCol(c) == \E i \in DOMAIN idx : c \in ColSet(idx[i].cols) \/ (c + 1) \in Fixed(idx[i].tmpl)

(* ---- queries -------------------------------------------------------------- *)
EQ == 1  NE == 2  LT == 4  GT == 8  LE == 16  GE == 32
Test(cond, v, w) ==
  LET c == Compare(v, w)
  IN CASE cond = 1 -> c = 0 [] cond = 2 -> c # 0 [] cond = 4 -> c < 0
       [] cond = 8 -> c > 0 [] cond = 16 -> c <= 0 [] cond = 32 -> c >= 0 [] OTHER -> TRUE
Satisfies(h, conds) == \A i \in 1..Len(conds) : HasCol(h, conds[i][1]) /\ Test(conds[i][2], Fld(h, conds[i][1]), conds[i][3])
MatchRec(h, m) == \A i \in Fixed(m) : HasCol(h, i - 1) /\ Compare(Fld(h, i - 1), m[i]) = 0
QueryRows(conds, m) == {h \in Live : Satisfies(h, conds) /\ MatchRec(h, m)}

(* ---- the operations ------------------------------------------------------- *)
Restrict(f, S) == [x \in S |-> f[x]]
Init == recs = << >> /\ addr = << >> /\ idx = << >>
Create(h, n, a) ==
  /\ h \notin Live /\ n >= 0
  /\ \A g \in Live : addr[g] # a
  /\ recs' = [x \in Live \cup {h} |-> IF x = h THEN [i \in 1..n |-> NULL] ELSE recs[x]]
  /\ addr' = [x \in Live \cup {h} |-> IF x = h THEN a ELSE addr[x]]
  /\ UNCHANGED idx
ValidVal(v) == v < 0 => -v \in Live
SetField(h, c, v) ==
  /\ h \in Live /\ HasCol(h, c) /\ ValidVal(v)
  /\ recs' = [recs EXCEPT ![h][c + 1] = v]
  /\ UNCHANGED <<addr, idx>>
SetNewField(h, c, v) == Fld(h, c) = NULL /\ SetField(h, c, v)
Delete(h) ==
  /\ h \in Live /\ Parents(h) = {}
  /\ recs' = Restrict(recs, Live \ {h})
  /\ addr' = Restrict(addr, Live \ {h})
  /\ UNCHANGED idx
CreateIndex(i, cols, type, tmpl) ==
  /\ i \notin DOMAIN idx
  /\ idx' = [x \in DOMAIN idx \cup {i} |-> IF x = i THEN [type |-> type, cols |-> cols, tmpl |-> tmpl] ELSE idx[x]]
  /\ UNCHANGED <<recs, addr>>
DropIndex(i) ==
  /\ i \in DOMAIN idx
  /\ idx' = Restrict(idx, DOMAIN idx \ {i})
  /\ UNCHANGED <<recs, addr>>

(* atomic (lock-free) updates, in a sequential history *)
Immediate(v, ptrVals) == v >= 0 /\ v \notin ptrVals
=============================================================================
