----------------------------- MODULE TTreeShape -----------------------------
(* What makes a collection of nodes a valid T-tree.  A node is               *)
(* [p, l, r, lh, rh, n, mn, mx, s, d, e]: parent, children, stored subtree   *)
(* heights, number of entries, stored minimum and maximum value, successor,  *)
(* predecessor (-1: links not kept), entries.  Node 1 is the root, 0 none.   *)
(* Used both for the algorithm specification (TTree.tla) and for snapshots   *)
(* of the real structure (StoreTrace.tla).                                   *)
EXTENDS Integers, Sequences
LOCAL Mx(a, b) == IF a > b THEN a ELSE b
RECURSIVE Inorder(_, _)
Inorder(N, k) == IF k = 0 THEN <<>> ELSE Inorder(N, N[k].l) \o <<k>> \o Inorder(N, N[k].r)
RECURSIVE FlatFrom(_, _, _)
FlatFrom(N, o, i) == IF i > Len(o) THEN <<>> ELSE N[o[i]].e \o FlatFrom(N, o, i + 1)
Flat(N) == FlatFrom(N, Inorder(N, 1), 1)
HeightOf(N, k) == IF k = 0 THEN 0 ELSE 1 + Mx(N[k].lh, N[k].rh)
LOCAL Abs(n) == IF n < 0 THEN -n ELSE n
ShapeOK(N, minnode, maxnode, cap, V(_), C(_, _)) ==
  LET o == Inorder(N, 1)
      f == FlatFrom(N, o, 1)
      m == Len(o)
  IN /\ Len(o) = Len(N) /\ N[1].p = 0
     /\ \A k \in 1..Len(N) :
          LET x == N[k] IN
          /\ Len(x.e) = x.n /\ x.n <= cap
          /\ (x.n = 0 => Len(N) = 1)                      \* only an empty index has an empty node
          /\ (x.l # 0 => N[x.l].p = k) /\ (x.r # 0 => N[x.r].p = k)
          /\ x.lh = HeightOf(N, x.l) /\ x.rh = HeightOf(N, x.r)
          /\ Abs(x.lh - x.rh) <= 1
          /\ x.n > 0 => /\ C(x.mn, V(x.e[1])) = 0 /\ C(x.mx, V(x.e[x.n])) = 0
     /\ \A i \in 1..(Len(f) - 1) : C(V(f[i]), V(f[i + 1])) <= 0
     /\ \A i \in 1..m :
          /\ N[o[i]].s # -1 => N[o[i]].s = (IF i = m THEN 0 ELSE o[i + 1])
          /\ N[o[i]].d # -1 => N[o[i]].d = (IF i = 1 THEN 0 ELSE o[i - 1])
     /\ minnode # -1 => minnode = o[1]
     /\ maxnode # -1 => maxnode = o[m]
=============================================================================
