-------------------------------- MODULE BppShare ----------------------------
(***************************************************************************)
(* How threads may share the nodes of trees: the reference count and the    *)
(* persistent mark of every node, the copies an edit makes, and the order   *)
(* of all that in memory (BppMem).  A tree is a root with Width leaves;     *)
(* every thread owns trees, mutable or immutable, starting with one that is *)
(* the same for all of them.  Each step below is what happens between two   *)
(* points at which another thread may take over.                            *)
(*                                                                         *)
(* The constants switch off parts of the protocol, to see that the          *)
(* properties depend on them.                                               *)
(***************************************************************************)
EXTENDS BppMem, Integers

CONSTANTS Threads,      \* e.g. {1, 2}
          Width,        \* leaves of a tree
          MaxOps,       \* operations of each thread
          MaxTrees,     \* trees a thread may own
          ReleaseDec, AcquireFence, AtomicCount, CheckMark, SkipMarked     \* BOOLEAN

VARIABLES
  mem,      \* BppMem
  node,     \* block -> [rc, mark, kids] or [rc, mark, val]
  todo,     \* thread -> what remains to be done of the current operation, a stack
  trees,    \* thread -> sequence of [k, root, val]: val is what the owner expects in it
  left,     \* thread -> operations left
  next,     \* next block
  bad       \* some step was not allowed by the memory model
svars == <<mem, node, todo, trees, left, next, bad>>

All == Threads \cup {0}
RC == 0  MARK == 1  DATA == 2
Leaves == 1..Width

Init ==
  LET root == Width + 1 IN
  /\ mem = Start(All, 0, 1..root)
  /\ node = [b \in 1..root |->
       IF b = root THEN [rc |-> Cardinality(Threads), mark |-> TRUE, kids |-> [i \in Leaves |-> i], val |-> 0]
       ELSE [rc |-> 1, mark |-> TRUE, kids |-> <<>>, val |-> 0]]
  /\ todo = [t \in Threads |-> <<>>]
  /\ trees = [t \in Threads |-> <<[k |-> "P", root |-> root, val |-> [i \in Leaves |-> 0]]>>]
  /\ left = [t \in Threads |-> MaxOps]
  /\ next = root + 1
  /\ bad = FALSE

Idle(t) == todo[t] = <<>>
Push(t, xs) == todo' = [todo EXCEPT ![t] = xs \o Tail(@)]
Begin(t, xs) == todo' = [todo EXCEPT ![t] = xs] /\ left' = [left EXCEPT ![t] = @ - 1]

(* ---------------------------- operations ------------------------------- *)
\* copy tree j, as the same kind or the other one; a mutable tree is marked first if the copy is to be independent
OpCopy(t, j, kind) ==
  /\ Len(trees[t]) < MaxTrees
  /\ Begin(t, (IF trees[t][j].k = "T" THEN <<[o |-> "mark", b |-> trees[t][j].root]>> ELSE <<>>)
              \o <<[o |-> "inc", b |-> trees[t][j].root]>>)
  /\ trees' = [trees EXCEPT ![t] = Append(@, [trees[t][j] EXCEPT !.k = kind])]
  /\ UNCHANGED <<mem, node, next, bad>>
OpDrop(t, j) ==
  /\ todo' = [todo EXCEPT ![t] = <<[o |-> "dec", b |-> trees[t][j].root]>>]
  /\ trees' = [trees EXCEPT ![t] = [i \in 1..(Len(@) - 1) |-> IF i < j THEN @[i] ELSE @[i + 1]]]
  /\ UNCHANGED <<mem, node, left, next, bad>>
\* set leaf i of mutable tree j
OpEdit(t, j, i) ==
  /\ trees[t][j].k = "T"
  /\ Begin(t, <<[o |-> "edit", b |-> trees[t][j].root, j |-> j, i |-> i, p |-> 0]>>)
  /\ trees' = [trees EXCEPT ![t][j].val[i] = t]
  /\ UNCHANGED <<mem, node, next, bad>>
OpRead(t, j) ==
  /\ Begin(t, <<[o |-> "read", b |-> trees[t][j].root]>>)
  /\ UNCHANGED <<mem, node, trees, next, bad>>

(* ------------------------------ steps ---------------------------------- *)
X(t) == todo[t][1]
\* plain accesses a: block -> [r, w]
Try(t, a) ==
  IF \A b \in DOMAIN a : CanAccess(mem, t, b, a[b].r, a[b].w, {}, {})
  THEN mem' = AccessMany(mem, t, a) /\ bad' = bad
  ELSE mem' = mem /\ bad' = TRUE
Cell(r, w) == [r |-> r, w |-> w]
Alive(b) == b \in DOMAIN node

StepMark(t) ==
  /\ X(t).o = "mark"
  /\ LET b == X(t).b IN
     IF ~Alive(b) THEN bad' = TRUE /\ UNCHANGED <<mem, node, todo, trees, left, next>>
     ELSE
     /\ IF node[b].mark /\ SkipMarked
        THEN Try(t, [x \in {b} |-> Cell({MARK}, {})]) /\ node' = node /\ Push(t, <<>>)
        ELSE /\ Try(t, [x \in {b} |-> Cell({MARK, DATA}, {MARK})])
             /\ node' = [node EXCEPT ![b].mark = TRUE]
             /\ Push(t, [i \in DOMAIN node[b].kids |-> [o |-> "mark", b |-> node[b].kids[i]]])
     /\ UNCHANGED <<trees, left, next>>
StepInc(t) ==
  /\ X(t).o = "inc"
  /\ LET b == X(t).b IN
     IF ~Alive(b) \/ ~CanAtomic(mem, t, b, RC, "rmw") THEN bad' = TRUE /\ UNCHANGED <<mem, node, todo, trees, left, next>>
     ELSE /\ mem' = Atomic(mem, t, b, RC, "rmw", FALSE, FALSE)
          /\ node' = [node EXCEPT ![b].rc = @ + 1]
          /\ Push(t, <<>>)
          /\ UNCHANGED <<trees, left, next, bad>>
StepDec(t) ==
  /\ X(t).o = "dec"
  /\ LET b == X(t).b IN
     IF ~Alive(b) \/ ~CanAtomic(mem, t, b, RC, "rmw") THEN bad' = TRUE /\ UNCHANGED <<mem, node, todo, trees, left, next>>
     ELSE IF AtomicCount
     THEN /\ mem' = LET m == Atomic(mem, t, b, RC, "rmw", FALSE, ReleaseDec)
                    IN IF node[b].rc = 1 /\ AcquireFence THEN Fence(m, t, TRUE, FALSE) ELSE m
          /\ node' = [node EXCEPT ![b].rc = @ - 1]
          /\ Push(t, IF node[b].rc = 1 THEN <<[o |-> "free", b |-> b]>> ELSE <<>>)
          /\ UNCHANGED <<trees, left, next, bad>>
     ELSE /\ mem' = Atomic(mem, t, b, RC, "load", TRUE, FALSE)
          /\ Push(t, <<[o |-> "dec2", b |-> b, c |-> node[b].rc]>>)
          /\ UNCHANGED <<node, trees, left, next, bad>>
\* the second half of a decrement that is not atomic
StepDec2(t) ==
  /\ X(t).o = "dec2"
  /\ LET b == X(t).b IN
     IF ~Alive(b) THEN bad' = TRUE /\ UNCHANGED <<mem, node, todo, trees, left, next>>
     ELSE /\ mem' = Atomic(mem, t, b, RC, "store", FALSE, TRUE)
          /\ node' = [node EXCEPT ![b].rc = X(t).c - 1]
          /\ Push(t, IF X(t).c = 1 THEN <<[o |-> "free", b |-> b]>> ELSE <<>>)
          /\ UNCHANGED <<trees, left, next, bad>>
StepFree(t) ==
  /\ X(t).o = "free"
  /\ LET b == X(t).b IN
     IF ~Alive(b) \/ ~CanAccess(mem, t, b, {DATA}, {}, {}, {}) \/ ~CanFree(mem, t, b)
     THEN bad' = TRUE /\ UNCHANGED <<mem, node, todo, trees, left, next>>
     ELSE /\ mem' = Free(mem, t, b)
          /\ node' = [x \in DOMAIN node \ {b} |-> node[x]]
          /\ Push(t, [i \in DOMAIN node[b].kids |-> [o |-> "dec", b |-> node[b].kids[i]]])
          /\ UNCHANGED <<trees, left, next, bad>>
StepRead(t) ==
  /\ X(t).o = "read"
  /\ LET b == X(t).b IN
     IF ~Alive(b) THEN bad' = TRUE /\ UNCHANGED <<mem, node, todo, trees, left, next>>
     ELSE /\ Try(t, [x \in {b} |-> Cell({DATA}, {})])
          /\ Push(t, [i \in DOMAIN node[b].kids |-> [o |-> "read", b |-> node[b].kids[i]]])
          /\ UNCHANGED <<node, trees, left, next>>
\* at node b on the way to leaf i of tree j; p is its parent, already owned by this tree alone
StepEdit(t) ==
  /\ X(t).o = "edit"
  /\ LET x == X(t)  b == x.b IN
     IF ~Alive(b) THEN bad' = TRUE /\ UNCHANGED <<mem, node, todo, trees, left, next>>
     ELSE IF node[b].mark /\ CheckMark
     THEN LET n == next  kids == node[b].kids
              m1 == Alloc(mem, n)
              ok == CanAccess(m1, t, b, {MARK, DATA}, {}, {}, {}) /\ CanAccess(m1, t, n, {}, {RC, MARK, DATA}, {}, {})
                    /\ (x.p # 0 => x.p \in DOMAIN node /\ CanAccess(m1, t, x.p, {DATA}, {DATA}, {}, {}))
          IN /\ bad' = (bad \/ ~ok)
             /\ mem' = IF ok
                       THEN AccessMany(m1, t, [y \in {b, n} \cup (IF x.p = 0 THEN {} ELSE {x.p}) |->
                              IF y = b THEN Cell({MARK, DATA}, {}) ELSE IF y = n THEN Cell({}, {RC, MARK, DATA}) ELSE Cell({DATA}, {DATA})])
                       ELSE mem
             \* the old node's children get another owner before the old node loses one
             /\ node' = [y \in DOMAIN node \cup {n} |->
                   IF y = n THEN [rc |-> 1, mark |-> FALSE, kids |-> kids, val |-> IF kids = <<>> THEN t ELSE 0]
                   ELSE IF y = x.p THEN [node[y] EXCEPT !.kids[x.i] = n] ELSE node[y]]
             /\ trees' = IF x.p = 0 THEN [trees EXCEPT ![t][x.j].root = n] ELSE trees
             /\ next' = n + 1
             /\ Push(t, [i \in DOMAIN kids |-> [o |-> "inc", b |-> kids[i]]]
                        \o <<[o |-> "dec", b |-> b]>>
                        \o (IF kids = <<>> THEN <<>> ELSE <<[x EXCEPT !.b = kids[x.i], !.p = n]>>))
             /\ left' = left
     ELSE /\ IF node[b].kids = <<>>
             THEN Try(t, [y \in {b} |-> Cell({MARK, DATA}, {DATA})]) /\ node' = [node EXCEPT ![b].val = t] /\ Push(t, <<>>)
             ELSE Try(t, [y \in {b} |-> Cell({MARK, DATA}, {DATA})]) /\ node' = node
                  /\ Push(t, <<[x EXCEPT !.b = node[b].kids[x.i], !.p = b]>>)
          /\ UNCHANGED <<trees, left, next>>

Operation(t) ==
  /\ Idle(t)
  /\ \/ left[t] > 0 /\ \E j \in 1..Len(trees[t]) :
          \/ \E k \in {"T", "P"} : OpCopy(t, j, k)
          \/ \E i \in Leaves : OpEdit(t, j, i)
          \/ OpRead(t, j)
     \* whatever happens, all trees are dropped in the end
     \/ trees[t] # <<>> /\ OpDrop(t, 1)
Step(t) ==
  \/ Operation(t)
  \/ ~Idle(t) /\ (StepMark(t) \/ StepInc(t) \/ StepDec(t) \/ StepDec2(t) \/ StepFree(t) \/ StepRead(t) \/ StepEdit(t))
Next == ~bad /\ \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_svars

(* ----------------------------- properties ------------------------------ *)
\* no access races with another, nothing is used after it was released
NoRace == ~bad
\* while a thread is not in the middle of something, its trees hold what it put there
AsIfAlone ==
  \A t \in Threads : Idle(t) =>
    \A j \in 1..Len(trees[t]) :
      /\ trees[t][j].root \in DOMAIN node
      /\ LET ks == node[trees[t][j].root].kids IN
         \A i \in Leaves : ks[i] \in DOMAIN node /\ node[ks[i]].val = trees[t][j].val[i]
\* when nobody is in the middle of something, counts are numbers of owners
Counted ==
  (\A t \in Threads : Idle(t)) =>
    \A b \in DOMAIN node :
      node[b].rc = Cardinality({<<t, j>> \in Threads \X (1..MaxTrees) : j <= Len(trees[t]) /\ trees[t][j].root = b})
                   + Cardinality({<<y, i>> \in (DOMAIN node) \X Leaves : i \in DOMAIN node[y].kids /\ node[y].kids[i] = b})
NoLeak == (\A t \in Threads : Idle(t) /\ trees[t] = <<>>) => DOMAIN node = {} /\ DOMAIN mem.blk = {}
\* what is marked is never changed
MarkedFixed ==
  [][\A b \in DOMAIN node \cap DOMAIN node' :
       node[b].mark => node'[b].mark /\ node'[b].kids = node[b].kids /\ node'[b].val = node[b].val]_svars
=============================================================================
