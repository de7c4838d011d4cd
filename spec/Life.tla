-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Lifetimes of element objects and memory blocks.                          *)
(*                                                                         *)
(* An object is a place (a small number standing for its address); it is    *)
(* absent, whole, or moved from.  A block is a piece of memory the library  *)
(* allocated.  An operation is <<kind, object, other object, block the      *)
(* object lies in (0: none)>>.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES whole,    \* objects alive and holding their value
          moved,    \* objects alive whose value was moved away
          inblk,    \* live object -> block it lies in, for those inside blocks
          blocks    \* live blocks
lvars == <<whole, moved, inblk, blocks>>

Kinds == <<"construct", "copy", "move", "assign", "move-assign", "read", "destroy", "allocate", "free">>
Kind(r) == Kinds[r[1] + 1]

State == [w |-> whole, m |-> moved, i |-> inblk, b |-> blocks, bad |-> <<>>]
Bad(st, r) == [st EXCEPT !.bad = r]
Born(st, r) ==      \* at a place where no object lives, in memory that is there
  IF r[2] \in st.w \/ r[2] \in st.m \/ (r[4] # 0 /\ r[4] \notin st.b) THEN Bad(st, r)
  ELSE [st EXCEPT !.w = @ \cup {r[2]}, !.i = IF r[4] = 0 THEN @ ELSE @ @@ (r[2] :> r[4])]
Taken(st, o) == [st EXCEPT !.w = @ \ {o}, !.m = @ \cup {o}]
Written(st, o) == IF o \in st.w THEN st ELSE [st EXCEPT !.m = @ \ {o}, !.w = @ \cup {o}]

Do(st, r) ==
  LET k == Kind(r)  o == r[2]  s == r[3] IN
  IF st.bad # <<>> THEN st
  ELSE CASE k = "construct" -> Born(st, r)
    [] k = "copy" -> IF s \in st.w /\ s # o THEN Born(st, r) ELSE Bad(st, r)
    [] k = "move" ->    \* what was moved from may be moved on, and stays moved from
         IF s = o THEN Bad(st, r)
         ELSE IF s \in st.w THEN Born(Taken(st, s), r)
         ELSE IF s \in st.m THEN LET n == Born(st, r) IN IF n.bad = <<>> THEN Taken(n, o) ELSE n
         ELSE Bad(st, r)
    [] k = "assign" -> IF s \in st.w /\ (o \in st.w \/ o \in st.m) THEN Written(st, o) ELSE Bad(st, r)
    [] k = "move-assign" ->
         IF ~(o \in st.w \/ o \in st.m) THEN Bad(st, r)
         ELSE IF s = o THEN st
         ELSE IF s \in st.w THEN Written(Taken(st, s), o)
         ELSE IF s \in st.m THEN IF o \in st.w THEN Taken(st, o) ELSE st
         ELSE Bad(st, r)
    [] k = "read" -> IF o \in st.w THEN st ELSE Bad(st, r)
    [] k = "destroy" ->
         IF o \in st.w \/ o \in st.m
         THEN [st EXCEPT !.w = @ \ {o}, !.m = @ \ {o},
                         !.i = IF r[4] = 0 THEN @ ELSE [x \in DOMAIN @ \ {o} |-> @[x]]]
         ELSE Bad(st, r)
    [] k = "allocate" -> IF o \in st.b THEN Bad(st, r) ELSE [st EXCEPT !.b = @ \cup {o}]
    [] k = "free" ->    \* nothing may still live in it
         IF o \in st.b /\ \A x \in DOMAIN st.i : st.i[x] # o THEN [st EXCEPT !.b = @ \ {o}] ELSE Bad(st, r)

LifeInit == whole = {} /\ moved = {} /\ inblk = <<>> /\ blocks = {}
\* a call of the library did these operations, in this order
Step(ops) ==
  LET st == FoldLeft(Do, State, ops) IN
  /\ st.bad = <<>>
  /\ whole' = st.w /\ moved' = st.m /\ inblk' = st.i /\ blocks' = st.b
\* the last tree went away
AllGone == whole = {} /\ moved = {} /\ blocks = {}

Consistent ==
  /\ whole \cap moved = {}
  /\ DOMAIN inblk \subseteq whole \cup moved
  /\ \A x \in DOMAIN inblk : inblk[x] \in blocks
=============================================================================
