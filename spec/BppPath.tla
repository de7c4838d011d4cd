------------------------------ MODULE BppPath -------------------------------
(***************************************************************************)
(* How iterators work: an iterator is a path, the index of a child per      *)
(* level and of an element in the leaf (the library packs them into 64      *)
(* bits).  This module adds to the node-level algorithm of BppNode what it  *)
(* does to a path: how an insertion or an erasure computes the path it      *)
(* hands back from the splits, carries and vanished nodes it meets on its   *)
(* way up, and how a path is advanced.  The laws say that this is what the  *)
(* contract says of positions (C09, C10, C11, C12).                         *)
(***************************************************************************)
EXTENDS BppNode

Zeros(d) == [j \in 1..d |-> 0]
RECURSIVE PathTo(_, _), EndPath(_), LastPath(_), PosOf(_, _), Legal(_, _, _), Less(_, _)
\* the path of the element at position i of a node that has one
PathTo(nd, i) == IF IsLeaf(nd) THEN <<i>> ELSE LET w == Where(nd.c, 1, i, 0) IN <<w[1] - 1>> \o PathTo(nd.c[w[1]], w[2])
EndPath(nd) == IF IsLeaf(nd) THEN <<Len(nd.e)>> ELSE <<Len(nd.c) - 1>> \o EndPath(nd.c[Len(nd.c)])
LastPath(nd) == IF IsLeaf(nd) THEN <<Len(nd.e) - 1>> ELSE <<Len(nd.c) - 1>> \o LastPath(nd.c[Len(nd.c)])
\* what a path refers to: order()
PosOf(nd, path) ==
  IF IsLeaf(nd) THEN path[1]
  ELSE LET off[j \in 0..Len(nd.c)] == IF j = 0 THEN 0 ELSE off[j - 1] + Count(nd.c[j])
       IN off[path[1]] + PosOf(nd.c[path[1] + 1], Tail(path))
Legal(nd, path, rm) ==
  /\ Len(path) = Depth(nd)
  /\ IF IsLeaf(nd) THEN path[1] \in 0..(Len(nd.e) - One(~rm))
     ELSE path[1] \in 0..(Len(nd.c) - 1) /\ Legal(nd.c[path[1] + 1], Tail(path), rm /\ path[1] = Len(nd.c) - 1)
\* the order of the packed numbers
Less(p, q) == p # <<>> /\ (p[1] < q[1] \/ (p[1] = q[1] /\ Less(Tail(p), Tail(q))))

(* ------------------- the paths that edits hand back -------------------- *)
RECURSIVE InsP(_, _, _, _), EraP(_, _, _), Strip(_, _)
\* left: the new element is in the left one of the two nodes
InsP(nd, i, at, rm) ==
  IF IsLeaf(nd) THEN
    LET sp == IF rm /\ i = LC THEN i ELSE (LC + 1) \div 2 IN
    IF Len(nd.e) < LC THEN [k |-> 1, path |-> <<i>>]
    ELSE [k |-> 2, left |-> i < sp, path |-> <<IF i < sp THEN i ELSE i - sp>>]
  ELSE
    LET w == Where(nd.c, 1, i, at)  j == w[1]
        r == InsP(nd.c[j], w[2], at, rm /\ j = Len(nd.c))
    IN IF r.k = 1 THEN [k |-> 1, path |-> <<j - 1>> \o r.path]
       ELSE LET t == IF r.left THEN j - 1 ELSE j
                sp == IF rm /\ j = IC THEN j ELSE (IC + 1) \div 2
            IN IF Len(nd.c) < IC THEN [k |-> 1, path |-> <<t>> \o r.path]
               ELSE [k |-> 2, left |-> t < sp, path |-> <<IF t < sp THEN t ELSE t - sp>> \o r.path]
InsertPath(t, i, at) == LET r == InsP(t, i, at, TRUE) IN
  IF r.k = 1 THEN r.path ELSE <<IF r.left THEN 0 ELSE 1>> \o r.path

\* carry: the last one of this node was erased, and the path belongs at the start of the next node
EraP(nd, i, rm) ==
  IF IsLeaf(nd) THEN
    IF Len(nd.e) = 1 THEN [k |-> 0, carry |-> FALSE, path |-> <<0>>]
    ELSE LET carry == i = Len(nd.e) - 1 /\ ~rm IN [k |-> 1, carry |-> carry, path |-> <<IF carry THEN 0 ELSE i>>]
  ELSE
    LET w == Where(nd.c, 1, i, 0)  j == w[1]
        r == EraP(nd.c[j], w[2], rm /\ j = Len(nd.c))
    IN IF r.k = 0 THEN
         IF Len(nd.c) = 1 THEN [k |-> 0, carry |-> FALSE, path |-> <<0>> \o r.path]
         ELSE LET carry == j = Len(nd.c) IN
              IF carry /\ rm THEN [k |-> 1, carry |-> FALSE, path |-> EndPath(Inner(FALSE, ErasePos(nd.c, j - 1)))]
              ELSE [k |-> 1, carry |-> carry, path |-> <<IF carry THEN 0 ELSE j - 1>> \o r.path]
       ELSE LET carry == r.carry /\ j = Len(nd.c) IN
            [k |-> 1, carry |-> carry, path |-> <<IF ~r.carry THEN j - 1 ELSE IF carry THEN 0 ELSE j>> \o r.path]
\* the root may have become lower: nothing may be left in the levels above it
Strip(path, d) == IF Len(path) = d THEN path ELSE IF path[1] # 0 THEN <<>> ELSE Strip(Tail(path), d)

(* ------------------------------ advancing ------------------------------ *)
\* <<path, steps that are left>>; Again is the loop over the children of a node
RECURSIVE Adv(_, _, _), Again(_, _, _)
Adv(nd, path, n) ==
  IF IsLeaf(nd) THEN
    LET sum == path[1] + n  len == Len(nd.e) IN
    IF n = 0 THEN <<path, 0>>
    ELSE IF sum >= len THEN <<<<len - 1>>, sum - (len - 1)>>
    ELSE IF sum < 0 THEN <<<<0>>, sum>>
    ELSE <<<<sum>>, 0>>
  ELSE Again(nd, path, n)
Again(nd, path, n) ==
  LET ix == path[1]
      r == Adv(nd.c[ix + 1], Tail(path), n)
  IN IF r[2] > 0 /\ ix < Len(nd.c) - 1 THEN Again(nd, <<ix + 1>> \o Zeros(Depth(nd) - 1), r[2] - 1)
     ELSE IF r[2] < 0 /\ ix > 0 THEN Again(nd, <<ix - 1>> \o LastPath(nd.c[ix]), r[2] + 1)
     ELSE <<<<ix>> \o r[1], r[2]>>
REnd == <<-1>>
RECURSIVE LeafOf(_, _)
LeafOf(nd, path) == IF IsLeaf(nd) THEN nd ELSE LeafOf(nd.c[path[1] + 1], Tail(path))
FromRoot(t, path, n) == LET r == Adv(t, path, n) IN IF r[2] > 0 THEN EndPath(t) ELSE IF r[2] < 0 THEN REnd ELSE r[1]
\* fresh: the iterator still knows its leaf and tries there first
Moved(t, path, n, fresh) ==
  IF path = REnd THEN IF n <= 0 THEN REnd ELSE IF n = 1 THEN Zeros(Depth(t)) ELSE FromRoot(t, Zeros(Depth(t)), n - 1)
  ELSE IF ~fresh THEN IF n = 0 THEN path ELSE FromRoot(t, path, n)
  ELSE LET d == Len(path)  r == Adv(LeafOf(t, path), <<path[d]>>, n)
           p == SubSeq(path, 1, d - 1) \o r[1]
       IN IF r[2] = 0 THEN p ELSE FromRoot(t, p, r[2])

\* paths do not depend on what is shared: only the behaviours without sharing need be looked at
Unshared == last'[1] # "s"

(* -------------------------------- laws --------------------------------- *)
At0(t, p) == IF p = Count(t) THEN EndPath(t) ELSE IF p < 0 THEN REnd ELSE PathTo(t, p)
\* every position has a path, and no other path is legal; C11: their order is that of the positions
Unique ==
  /\ \A p \in 0..N : LET x == At0(tree, p) IN Legal(tree, x, TRUE) /\ PosOf(tree, x) = p
  /\ \A p, q \in 0..N : Less(At0(tree, p), At0(tree, q)) <=> p < q
\* C12: an insertion hands back where the new element is, an erasure where the next one is
Edits ==
  /\ \A i \in 0..N, at \in 0..1 : LET r == Insert(tree, i, 0, at) IN InsertPath(tree, i, at) = At0(r.a, i)
  /\ \A i \in 0..(N - 1) :
       LET r == Erase(tree, i)  x == EraP(tree, i, TRUE) IN
       /\ ~x.carry
       /\ Strip(x.path, Depth(r.a)) = At0(r.a, i)
\* C10: advancing is adding, held at both ends
Advances ==
  \A p \in -1..N, n \in (-N - 2)..(N + 2), fresh \in BOOLEAN :
    Moved(tree, At0(tree, p), n, fresh) = At0(tree, Advance(N, p, 0, n))
=============================================================================
