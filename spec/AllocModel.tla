----------------------------- MODULE AllocModel -----------------------------
(* The variable-length allocator as an algorithm, on one small sub-area:     *)
(* blocks in address order, free lists by size (most recently freed first),  *)
(* and the designated victim, which new blocks are cut from.                 *)
(* Checked: every block is in use, free and listed exactly once, or the      *)
(* victim; free blocks never touch; storage adds up; emptying the area gives *)
(* one block again.  `hist' is not part of the state proper (see VIEW): it   *)
(* is the shortest way to the state, printed for every transition, which is  *)
(* how the behaviours replayed into the real allocator are produced.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, SIZES, MIN, MAXLIVE
VARIABLES blocks,   \* sequence of [s |-> size, k |-> "u" | "f" | "d"]
          lists,    \* [size -> sequence of offsets of free blocks of that size]
          live,     \* offsets in use, oldest first
          hist
vars == <<blocks, lists, live, hist>>
View == <<blocks, lists, live>>
RECURSIVE Off(_, _)
Off(b, i) == IF i = 1 THEN 0 ELSE Off(b, i - 1) + b[i - 1].s
At(b, o) == CHOOSE i \in 1..Len(b) : Off(b, i) = o
Dv(b) == {i \in 1..Len(b) : b[i].k = "d"}
Replace(b, i, new) == SubSeq(b, 1, i - 1) \o new \o SubSeq(b, i + 1, Len(b))
Merge2(b, i, k) == SubSeq(b, 1, i - 1) \o <<[s |-> b[i].s + b[i + 1].s, k |-> k]>> \o SubSeq(b, i + 2, Len(b))
Drop(q, o) == SelectSeq(q, LAMBDA x : x # o)
Push(l, s, o) == [l EXCEPT ![s] = <<o>> \o @]
Unlist(l, s, o) == [l EXCEPT ![s] = Drop(@, o)]
Fits(n, s) == s = n \/ s >= n + MIN
Larger(n) == {s \in 1..N : s >= n + MIN /\ lists[s] # <<>>}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
CanVictim(n) == Dv(blocks) # {} /\ Fits(n, blocks[CHOOSE i \in Dv(blocks) : TRUE].s)
CanAlloc(n) == lists[n] # <<>> \/ CanVictim(n) \/ Larger(n) # {}
Take(i, n, rest) == \* cut n off block i; the rest becomes kind `rest'
  IF blocks[i].s = n THEN Replace(blocks, i, <<[s |-> n, k |-> "u"]>>)
  ELSE Replace(blocks, i, <<[s |-> n, k |-> "u"], [s |-> blocks[i].s - n, k |-> rest]>>)
Alloc(n) ==
  /\ Len(live) < MAXLIVE
  /\ hist' = Append(hist, [op |-> "alloc", n |-> n])
  /\ \/ /\ lists[n] # <<>>
        /\ LET o == lists[n][1] IN /\ blocks' = Take(At(blocks, o), n, "f")
                                   /\ lists' = Unlist(lists, n, o) /\ live' = Append(live, o)
     \/ /\ lists[n] = <<>> /\ CanVictim(n)
        /\ LET i == CHOOSE i \in Dv(blocks) : TRUE IN
           blocks' = Take(i, n, "d") /\ live' = Append(live, Off(blocks, i)) /\ UNCHANGED lists
     \/ /\ lists[n] = <<>> /\ ~ CanVictim(n) /\ Larger(n) # {}
        /\ LET s == Min(Larger(n))  o == lists[s][1] IN
           /\ blocks' = Take(At(blocks, o), n, "f") /\ live' = Append(live, o)
           /\ lists' = Push(Unlist(lists, s, o), s - n, o + n)
(* freeing: merge with a free or victim neighbour; a free block larger than the victim takes its place *)
Place(b, l, o) == \* block at o is free and merged, not the victim: list it, or make it the victim
  LET i == At(b, o)  D == Dv(b) IN
  IF D # {} /\ b[CHOOSE j \in D : TRUE].s >= b[i].s
  THEN <<[b EXCEPT ![i].k = "f"], Push(l, b[i].s, o)>>
  ELSE IF D = {} THEN <<[b EXCEPT ![i].k = "d"], l>>
  ELSE LET j == CHOOSE j \in D : TRUE IN <<[b EXCEPT ![i].k = "d", ![j].k = "f"], Push(l, b[j].s, Off(b, j))>>
FreeAt(b0, l0, o0) ==
  LET i0 == At(b0, o0)
      pf == i0 > 1 /\ b0[i0 - 1].k = "f"
      pd == i0 > 1 /\ b0[i0 - 1].k = "d"
      l1 == IF pf THEN Unlist(l0, b0[i0 - 1].s, Off(b0, i0 - 1)) ELSE l0
      b1 == IF pf \/ pd THEN Merge2(b0, i0 - 1, IF pd THEN "d" ELSE "u") ELSE b0
      i1 == IF pf \/ pd THEN i0 - 1 ELSE i0
      nf == i1 < Len(b1) /\ b1[i1 + 1].k = "f"
      nd == i1 < Len(b1) /\ b1[i1 + 1].k = "d"
      l2 == IF nf THEN Unlist(l1, b1[i1 + 1].s, Off(b1, i1 + 1)) ELSE l1
      b2 == IF nf \/ nd THEN Merge2(b1, i1, IF nd \/ b1[i1].k = "d" THEN "d" ELSE "u") ELSE b1
  IN IF b2[i1].k = "d" THEN <<b2, l2>> ELSE Place(b2, l2, Off(b2, i1))
Free(k) ==
  /\ k <= Len(live)
  /\ hist' = Append(hist, [op |-> "free", n |-> k])
  /\ LET r == FreeAt(blocks, lists, live[k]) IN blocks' = r[1] /\ lists' = r[2]
  /\ live' = SubSeq(live, 1, k - 1) \o SubSeq(live, k + 1, Len(live))
Init == /\ blocks = <<[s |-> N, k |-> "d"]>> /\ lists = [s \in 1..N |-> <<>>] /\ live = <<>> /\ hist = <<>>
Next == (\E n \in SIZES : Alloc(n)) \/ (\E k \in 1..MAXLIVE : Free(k))
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(b, i) == IF i > Len(b) THEN 0 ELSE b[i].s + Sum(b, i + 1)
Partition == Sum(blocks, 1) = N /\ \A i \in 1..Len(blocks) : blocks[i].s >= MIN
Listed == \A s \in 1..N : /\ Cardinality({lists[s][i] : i \in 1..Len(lists[s])}) = Len(lists[s])
                          /\ {lists[s][i] : i \in 1..Len(lists[s])} = {Off(blocks, i) : i \in {j \in 1..Len(blocks) : blocks[j].k = "f" /\ blocks[j].s = s}}
LiveUsed == {live[i] : i \in 1..Len(live)} = {Off(blocks, i) : i \in {j \in 1..Len(blocks) : blocks[j].k = "u"}}
NoTouch == \A i \in 1..(Len(blocks) - 1) : ~ (blocks[i].k # "u" /\ blocks[i + 1].k # "u")
OneVictim == Cardinality(Dv(blocks)) <= 1
Emptied == live = <<>> => Len(blocks) = 1
Out == IF hist' = hist THEN TRUE ELSE PrintT(<<"HIST", ToJson(hist')>>)
=============================================================================
