-------------------------------- MODULE BppMem ------------------------------
(***************************************************************************)
(* Memory as several threads see it: which accesses happen before which,    *)
(* following the C++ memory model for data-race-free programs whose atomic   *)
(* operations read the latest value.  A memory m has                         *)
(*   m.vc[t]   vector clock of thread t,                                     *)
(*   m.rel[t]  its clock at its last release fence,                          *)
(*   m.acq[t]  what its relaxed atomic reads have seen, taken up by the next *)
(*             acquire fence,                                                *)
(*   m.blk     the allocated blocks: block -> [acc, sync], where acc lists   *)
(*             the accesses made so far, [t, c, r, w, ar, aw]: by thread t   *)
(*             at its clock c, plain reads and writes and atomic reads and   *)
(*             writes, as sets of cells; and sync maps the cells of atomic   *)
(*             variables to the clock of the release sequence they head.     *)
(* Every operation has a guard: it must not race with an earlier access and  *)
(* must not touch a block that is not allocated.                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

Zero(T) == [t \in T |-> 0]
Join(a, b) == TLCEval([t \in DOMAIN a |-> IF a[t] >= b[t] THEN a[t] ELSE b[t]])
NewBlock == [acc |-> <<>>, sync |-> [c \in {} |-> {}]]

\* threads T, of which `main' owns the given blocks before the others start
Start(T, main, blocks) ==
  LET first == [t \in T |-> [u \in T |-> IF u = t /\ t # main THEN 1 ELSE 0]]
  IN [vc |-> first, rel |-> [t \in T |-> Zero(T)], acq |-> [t \in T |-> Zero(T)],
      blk |-> [b \in blocks |-> NewBlock]]
\* `main' has waited for all the others
JoinAll(m, main) ==
  LET T == DOMAIN m.vc
      all == [u \in T |-> m.vc[u][u]]
  IN [m EXCEPT !.vc[main] = [all EXCEPT ![main] = @ + 1]]

Before(m, t, x) == x.t = t \/ x.c <= m.vc[t][x.t]
Conflict(x, r, w, ar, aw) ==
  \/ x.w \cap (r \cup w \cup ar \cup aw) # {}
  \/ x.r \cap (w \cup aw) # {}
  \/ x.ar \cap w # {}
  \/ x.aw \cap (r \cup w) # {}
CanAccess(m, t, b, r, w, ar, aw) ==
  /\ b \in DOMAIN m.blk
  /\ LET a == m.blk[b].acc IN
     \A i \in 1..Len(a) : Before(m, t, a[i]) \/ ~Conflict(a[i], r, w, ar, aw)
\* accesses at one clock of a thread are kept in one record
Recorded(a, t, c, r, w, ar, aw) ==
  LET same == {i \in 1..Len(a) : a[i].t = t /\ a[i].c = c} IN
  IF same = {} THEN Append(a, [t |-> t, c |-> c, r |-> r, w |-> w, ar |-> ar, aw |-> aw])
  ELSE LET i == CHOOSE j \in same : TRUE IN
       [a EXCEPT ![i].r = @ \cup r, ![i].w = @ \cup w, ![i].ar = @ \cup ar, ![i].aw = @ \cup aw]
Access(m, t, b, r, w, ar, aw) ==
  TLCEval([m EXCEPT !.blk[b].acc = Recorded(@, t, m.vc[t][t], r, w, ar, aw)])
\* plain accesses to several blocks; a: block -> [r, w]
AccessMany(m, t, a) ==
  TLCEval([m EXCEPT !.blk = [b \in DOMAIN @ |->
     IF b \in DOMAIN a
     THEN [@[b] EXCEPT !.acc = Recorded(@, t, m.vc[t][t], a[b].r, a[b].w, {}, {})]
     ELSE @[b]]])

CanAlloc(m, b) == b \notin DOMAIN m.blk
Alloc(m, b) == TLCEval([m EXCEPT !.blk = [x \in DOMAIN @ \cup {b} |-> IF x = b THEN NewBlock ELSE @[x]]])
\* releasing a block is like writing all of it
CanFree(m, t, b) ==
  /\ b \in DOMAIN m.blk
  /\ LET a == m.blk[b].acc IN \A i \in 1..Len(a) : Before(m, t, a[i])
Free(m, t, b) == TLCEval([m EXCEPT !.blk = [x \in DOMAIN @ \ {b} |-> @[x]]])

SyncOf(m, b, c) == IF c \in DOMAIN m.blk[b].sync THEN m.blk[b].sync[c] ELSE Zero(DOMAIN m.vc)
SetSync(m, b, c, v) ==
  TLCEval([m EXCEPT !.blk[b].sync = [x \in DOMAIN @ \cup {c} |-> IF x = c THEN v ELSE @[x]]])
\* an atomic operation: kind "load", "store" or "rmw"; acq and rel: whether it acquires and releases
CanAtomic(m, t, b, c, kind) ==
  CanAccess(m, t, b, {}, {}, IF kind = "load" THEN {c} ELSE {}, IF kind = "load" THEN {} ELSE {c})
Atomic(m, t, b, c, kind, acq, rel) ==
  LET m1 == Access(m, t, b, {}, {}, IF kind = "load" THEN {c} ELSE {}, IF kind = "load" THEN {} ELSE {c})
      seen == TLCEval(SyncOf(m, b, c))
      m2 == IF kind = "store" THEN m1
            ELSE IF acq THEN TLCEval([m1 EXCEPT !.vc[t] = Join(@, seen)])
            ELSE TLCEval([m1 EXCEPT !.acq[t] = Join(@, seen)])
      head == IF rel THEN m2.vc[t] ELSE m2.rel[t]
      m3 == IF kind = "load" THEN m2
            ELSE SetSync(m2, b, c, IF kind = "rmw" THEN Join(seen, head) ELSE head)
  IN IF kind # "load" /\ rel THEN [m3 EXCEPT !.vc[t][t] = @ + 1] ELSE m3
Fence(m, t, acq, rel) ==
  LET m1 == IF acq THEN [m EXCEPT !.vc[t] = Join(@, m.acq[t])] ELSE m
  IN IF rel THEN [m1 EXCEPT !.rel[t] = m1.vc[t], !.vc[t][t] = @ + 1] ELSE m1
=============================================================================
