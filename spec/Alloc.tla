------------------------------- MODULE Alloc -------------------------------
(* What any storage snapshot of a database must satisfy, whatever the        *)
(* allocation policy.  Areas 0..2 hold blocks of any length, areas 3..9      *)
(* objects of one length.                                                    *)
(*  subs     sequence of <<start, length>> of the sub-areas of an area       *)
(*  walk     per sub-area the blocks in address order: <<offset, size, kind, *)
(*           mark>>, kind 0 in use, 1 free, 2 start, 3 end, 4 victim         *)
(*  buckets  <<bucket, offset, size, link ok>> of all free lists             *)
EXTENDS Integers, Sequences, FiniteSets
MINBLK == 32
EXACT == 256
LOCAL Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE BucketAbove(_, _, _)
BucketAbove(size, b, lim) == IF size < lim THEN b ELSE BucketAbove(size, b + 1, lim * 2)
BucketOf(size) == IF size < EXACT THEN size ELSE BucketAbove(size, EXACT, 2 * EXACT)

Marked(m) == m = 2      \* "the block before me is free"
WalkOK(sub, w) ==
  /\ Len(w) >= 2
  /\ w[1][1] = sub[1] /\ w[1][3] = 2
  /\ w[Len(w)][1] + w[Len(w)][2] = sub[1] + sub[2] /\ w[Len(w)][3] = 3
  /\ \A i \in 1..Len(w) : w[i][2] >= MINBLK /\ w[i][2] % 8 = 0 /\ (w[i][3] \in {2, 3} => i \in {1, Len(w)})
  /\ \A i \in 1..(Len(w) - 1) :
       /\ w[i + 1][1] = w[i][1] + w[i][2]                                     \* nothing between blocks
       /\ ~ (w[i][3] \in {1, 4} /\ w[i + 1][3] \in {1, 4})                     \* free neighbours are merged
       /\ w[i + 1][3] = 0 => (Marked(w[i + 1][4]) <=> w[i][3] = 1)             \* what the next release relies on
HeapOK(subs, walks, buckets, dv, dvsize) ==
  LET Blocks(k) == UNION {{<<w[i][1], w[i][2]>> : i \in {j \in 1..Len(w) : w[j][3] = k}} : w \in Range(walks)}
  IN /\ Len(walks) = Len(subs)
     /\ \A k \in 1..Len(subs) : WalkOK(subs[k], walks[k])
     /\ Blocks(4) = (IF dv = 0 THEN {} ELSE {<<dv, dvsize>>})
     /\ Cardinality({b[2] : b \in Range(buckets)}) = Len(buckets)              \* listed once
     /\ {<<b[2], b[3]>> : b \in Range(buckets)} = Blocks(1)                     \* all of them, with their size
     /\ \A b \in Range(buckets) : b[1] = BucketOf(b[3]) /\ b[4] = 1
UsedOf(walks) == UNION {{<<w[i][1], w[i][2]>> : i \in {j \in 1..Len(w) : w[j][3] = 0}} : w \in Range(walks)}
FreeSizes(walks) == UNION {{w[i][2] : i \in {j \in 1..Len(w) : w[j][3] \in {1, 4}}} : w \in Range(walks)}
(* areas of equally long objects: every slot is used or on the free list, once *)
Slots(subs, len) == UNION {{s[1] + k * len : k \in 0..((s[2] \div len) - 1)} : s \in Range(subs)}
FixOK(subs, len, free, used) ==
  LET F == Range(free)  S == Slots(subs, len) IN
  /\ Cardinality(F) = Len(free)
  /\ F \subseteq S
  /\ F \cap used = {}
  /\ S \ F = used
(* the segment: sub-areas (as allocated: offset, size) lie inside it and apart from each other *)
SegOK(all, hdr, free, size) ==
  /\ free <= size
  /\ \A i \in 1..Len(all) : all[i][1] >= hdr /\ all[i][1] + all[i][2] <= free
  /\ \A i, j \in 1..Len(all) : i < j => \/ all[i][1] + all[i][2] <= all[j][1]
                                        \/ all[j][1] + all[j][2] <= all[i][1]
=============================================================================
