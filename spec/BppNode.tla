------------------------------ MODULE BppNode -------------------------------
(***************************************************************************)
(* The algorithm of the library: a tree of nodes, edited in place where a   *)
(* node is owned and by copying it where it is shared.  A leaf is           *)
(* [p, e]: whether it is marked as shared and its elements; an inner node   *)
(* is [p, c] with its children.  LC and IC are the capacities.              *)
(*                                                                         *)
(* The behaviours of this module are the shapes a tree can take and the     *)
(* ways between them.  It serves two ends: TLC checks on every reachable    *)
(* shape that the algorithm does what the contract (BppOps) prescribes, at  *)
(* the cost C17 grants and within the depth C18 grants; and every           *)
(* transition it finds is a test case, replayed on the real library         *)
(* (tools/vx.py: walks) and judged there by the contract, not by this       *)
(* module: the library is free to shape its trees otherwise.                *)
(***************************************************************************)
EXTENDS BppOps, TLC

CONSTANTS LC, IC,   \* elements per leaf, children per inner node
          MaxN,     \* number of elements
          MaxD,     \* greatest depth
          Track     \* keep track of how the tree came about (for C18)

VARIABLES tree,
          mode,     \* 2: only appended to since empty, 1: only inserted into, 0: anything else
          last      \* the step taken: operation, position, nodes allocated

nvars == <<tree, mode, last>>

Leaf(p, e) == [p |-> p, e |-> e]
Inner(p, c) == [p |-> p, c |-> c]
IsLeaf(nd) == "e" \in DOMAIN nd
One(b) == IF b THEN 1 ELSE 0

RECURSIVE Flat(_), Count(_), Depth(_), Marked(_), Closed(_), AllMarked(_), Sane(_)
Flat(nd) == IF IsLeaf(nd) THEN nd.e
            ELSE LET f[j \in 0..Len(nd.c)] == IF j = 0 THEN <<>> ELSE f[j - 1] \o Flat(nd.c[j]) IN f[Len(nd.c)]
Count(nd) == IF IsLeaf(nd) THEN Len(nd.e)
             ELSE LET f[j \in 0..Len(nd.c)] == IF j = 0 THEN 0 ELSE f[j - 1] + Count(nd.c[j]) IN f[Len(nd.c)]
Depth(nd) == IF IsLeaf(nd) THEN 1 ELSE 1 + Depth(nd.c[1])
Marked(nd) == nd.p \/ (~IsLeaf(nd) /\ \E j \in 1..Len(nd.c) : Marked(nd.c[j]))
AllMarked(nd) == nd.p /\ (IsLeaf(nd) \/ \A j \in 1..Len(nd.c) : AllMarked(nd.c[j]))
\* what is marked as shared has only marked nodes below it
Closed(nd) == IsLeaf(nd) \/ (\A j \in 1..Len(nd.c) : Closed(nd.c[j]) /\ (nd.p => nd.c[j].p))
\* no empty nodes, no full nodes, the same depth everywhere
Sane(nd) == IF IsLeaf(nd) THEN 1 <= Len(nd.e) /\ Len(nd.e) <= LC
            ELSE /\ 1 <= Len(nd.c) /\ Len(nd.c) <= IC
                 /\ \A j \in 1..Len(nd.c) : Sane(nd.c[j]) /\ Depth(nd.c[j]) = Depth(nd.c[1])

\* the child in which position i lies, and the position there; an insertion
\* between two children goes to the first one (at: 1, insertion by position)
\* or to the second one (at: 0, insertion by key or before an iterator)
RECURSIVE Where(_, _, _, _)
Where(c, j, i, at) == IF j = Len(c) \/ i < Count(c[j]) + at THEN <<j, i>> ELSE Where(c, j + 1, i - Count(c[j]), at)

\* results: nothing left (k = 0), one node (k = 1) or two (k = 2), and the number of nodes allocated
Gone(al) == [k |-> 0, al |-> al]
Rep(a, al) == [k |-> 1, a |-> a, al |-> al]
Split(a, b, al) == [k |-> 2, a |-> a, b |-> b, al |-> al]

RECURSIVE Ins(_, _, _, _, _), Era(_, _), Upd(_, _, _)
Ins(nd, i, x, at, rm) ==        \* rm: this is the last node of its level
  IF IsLeaf(nd) THEN
    LET t == InsertPos(nd.e, i, x)
        sp == IF rm /\ i = LC THEN i ELSE (LC + 1) \div 2
    IN IF Len(t) <= LC THEN Rep(Leaf(FALSE, t), One(nd.p))
       ELSE Split(Leaf(FALSE, SubSeq(t, 1, sp)), Leaf(FALSE, SubSeq(t, sp + 1, Len(t))), 1 + One(nd.p))
  ELSE
    LET w == Where(nd.c, 1, i, at)  j == w[1]
        r == Ins(nd.c[j], w[2], x, at, rm /\ j = Len(nd.c))
    IN IF r.k = 1 THEN Rep(Inner(FALSE, [nd.c EXCEPT ![j] = r.a]), r.al + One(nd.p))
       ELSE LET t == SubSeq(nd.c, 1, j - 1) \o <<r.a, r.b>> \o SubSeq(nd.c, j + 1, Len(nd.c))
                sp == IF rm /\ j = IC THEN j ELSE (IC + 1) \div 2
            IN IF Len(t) <= IC THEN Rep(Inner(FALSE, t), r.al + One(nd.p))
               ELSE Split(Inner(FALSE, SubSeq(t, 1, sp)), Inner(FALSE, SubSeq(t, sp + 1, Len(t))), r.al + 1 + One(nd.p))
Era(nd, i) ==
  IF IsLeaf(nd) THEN IF Len(nd.e) = 1 THEN Gone(0) ELSE Rep(Leaf(FALSE, ErasePos(nd.e, i)), One(nd.p))
  ELSE LET w == Where(nd.c, 1, i, 0)  j == w[1]  r == Era(nd.c[j], w[2])
       IN IF r.k = 1 THEN Rep(Inner(FALSE, [nd.c EXCEPT ![j] = r.a]), r.al + One(nd.p))
          ELSE IF Len(nd.c) = 1 THEN Gone(0)
          ELSE Rep(Inner(FALSE, ErasePos(nd.c, j - 1)), One(nd.p))
Upd(nd, i, x) ==
  IF IsLeaf(nd) THEN Rep(Leaf(FALSE, AssignPos(nd.e, i, x)), One(nd.p))
  ELSE LET w == Where(nd.c, 1, i, 0)  r == Upd(nd.c[w[1]], w[2], x)
       IN Rep(Inner(FALSE, [nd.c EXCEPT ![w[1]] = r.a]), r.al + One(nd.p))
RECURSIVE Share(_), Collapse(_)
Share(nd) == IF IsLeaf(nd) THEN Leaf(TRUE, nd.e) ELSE Inner(TRUE, [j \in 1..Len(nd.c) |-> Share(nd.c[j])])
Collapse(nd) == IF ~IsLeaf(nd) /\ Len(nd.c) = 1 THEN Collapse(nd.c[1]) ELSE nd

\* the same at the root
Insert(t, i, x, at) == LET r == Ins(t, i, x, at, TRUE) IN
  IF r.k = 1 THEN r ELSE Rep(Inner(FALSE, <<r.a, r.b>>), r.al + 1)
Erase(t, i) == LET r == Era(t, i) IN IF r.k = 1 THEN Rep(Collapse(r.a), r.al) ELSE Rep(Leaf(FALSE, <<>>), 1)
Update(t, i, x) == Upd(t, i, x)

(* ------------------------------ behaviours ----------------------------- *)
N == Count(tree)
Init == tree = Leaf(FALSE, <<>>) /\ mode = 2 /\ last = <<"new", 0, 0>>
Step(op, i, r, m) == LET t == r.a IN tree' = t /\ last' = <<op, i, r.al>> /\ mode' = IF ~Track THEN 2 ELSE IF Count(t) = 0 THEN 2 ELSE Min2(mode, m)
Next ==
  \/ \E i \in 0..N : N < MaxN /\ LET r == Insert(tree, i, 0, 0) IN
       Depth(r.a) <= MaxD /\ Step("i", i, r, IF i = N THEN 2 ELSE 1)
  \/ \E i \in 1..(N - 1) : N < MaxN /\ LET r == Insert(tree, i, 0, 1) IN
       r.a # Insert(tree, i, 0, 0).a /\ Depth(r.a) <= MaxD /\ Step("j", i, r, 1)
  \/ \E i \in 0..(N - 1) : Step("e", i, Erase(tree, i), 0)
  \/ \E i \in 0..(N - 1) : Step("u", i, Update(tree, i, 0), 2)
  \/ ~AllMarked(tree) /\ Step("s", 0, Rep(Share(tree), 0), 2)
Spec == Init /\ [][Next]_nvars
View == <<tree, mode>>

(* -------------------------------- laws --------------------------------- *)
TypeOK == (N > 0 => Sane(tree)) /\ Closed(tree) /\ (N = 0 => IsLeaf(tree))
\* the elements named by their positions
RECURSIVE Named(_, _)
Named(nd, k) == IF IsLeaf(nd) THEN Leaf(nd.p, [j \in 1..Len(nd.e) |-> k + j])
  ELSE LET off[j \in 1..Len(nd.c)] == IF j = 1 THEN 0 ELSE off[j - 1] + Count(nd.c[j - 1])
       IN Inner(nd.p, [j \in 1..Len(nd.c) |-> Named(nd.c[j], k + off[j])])
\* C01: edits of the nodes are edits of the sequence
Refines ==
  LET t == Named(tree, 0)  s == Flat(t) IN
  /\ s = [j \in 1..N |-> j]
  /\ \A i \in 0..N, at \in 0..1 : Flat(Insert(t, i, 99, at).a) = InsertPos(s, i, 99)
  /\ \A i \in 0..(N - 1) : Flat(Erase(t, i).a) = ErasePos(s, i) /\ Flat(Update(t, i, 99).a) = AssignPos(s, i, 99)
  /\ Flat(Share(t)) = s
\* C17: copies are paid once, and only for what is shared
Costs ==
  LET d == Depth(tree) IN
  /\ \A i \in 0..(N - 1) :
       LET u == Update(tree, i, 0)  e == Erase(tree, i) IN
       /\ u.al <= d - One(~tree.p) /\ (~Marked(tree) => u.al = 0)
       /\ Update(u.a, i, 0).al = 0
       /\ N > 1 => Erase(u.a, i).al = 0
       /\ N > 1 => e.al <= d - One(~tree.p) /\ (~Marked(tree) => e.al = 0)
       /\ N = 1 => e.al = 1
  /\ \A i \in 0..N, at \in 0..1 : LET r == Insert(tree, i, 0, at) IN
       /\ r.al <= (IF Marked(tree) THEN d ELSE 0) + d + 1
       /\ i <= Count(r.a) => Update(r.a, i, 0).al = 0
       /\ Closed(r.a)
  \* an edit of an immutable tree
  /\ LET t == Share(tree) IN
       /\ \A i \in 0..(N - 1) : Update(t, i, 0).al <= d /\ (N > 1 => Erase(t, i).al <= d)
       /\ \A i \in 0..N, at \in 0..1 : Insert(t, i, 0, at).al <= 2 * d + 1
\* C18: no deeper than half-full nodes need, or full ones after appending in order
RECURSIVE LeastFull(_, _, _)
LeastFull(d, l, c) == IF d = 1 THEN l ELSE c * LeastFull(d - 1, l, c)
Shallow ==
  LET d == Depth(tree) IN
  /\ d > 1 => N >= 2 /\ Len(tree.c) >= 2
  /\ (Track /\ d > 1 /\ mode >= 1) => N > LeastFull(d - 1, (LC + 1) \div 2, (IC + 1) \div 2)
  /\ (Track /\ d > 1 /\ mode = 2) => N > LeastFull(d - 1, LC, IC)

(* ------------------------------- test cases ---------------------------- *)
RECURSIVE Show(_)
Show(nd) == (IF nd.p THEN "'" ELSE "") \o
  (IF IsLeaf(nd) THEN ToString(Len(nd.e))
   ELSE LET f[j \in 0..Len(nd.c)] == IF j = 0 THEN "" ELSE f[j - 1] \o Show(nd.c[j]) \o " " IN "(" \o f[Len(nd.c)] \o ")")
Edge == PrintT(<<"EDGE", Show(tree), last'[1], last'[2], Show(tree'), last'[3]>>)
=============================================================================
