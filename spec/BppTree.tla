------------------------------- MODULE BppTree ------------------------------
(***************************************************************************)
(* The contract of the library as a state machine: a forest of mutable     *)
(* ("T", Transient) and immutable ("P", Persistent) trees, iterators into  *)
(* them, and one action per public operation.  `res' is what the operation *)
(* returned.  The same actions are driven by BppTreeMC (all behaviours     *)
(* within small constants) and by Trace (behaviours recorded from the      *)
(* real code).                                                             *)
(***************************************************************************)
EXTENDS BppOps

VARIABLES
  cfg,      \* how elements are read (see BppOps); constant during a run
  forest,   \* handle -> [k: "T" or "P", s: sequence of elements]
  iters,    \* iterator id -> [h: handle, p: position, r: 0 forward / 1 reverse]
  res       \* result of the last operation

vars == <<cfg, forest, iters, res>>

Empty == <<>>
NoRes == <<"none">>
Failed == <<"failed">>    \* the operation reported failure
Both == <<"both">>        \* the operation named two trees to be edited
Rebound == <<"rebound">>  \* a handle was assigned: it names another tree now
Result(v) == <<"value", v>>

Init0(c) == /\ cfg = c /\ forest = Empty /\ iters = Empty /\ res = NoRes

Live(h) == h \in DOMAIN forest
IsT(h) == Live(h) /\ forest[h].k = "T"
IsP(h) == Live(h) /\ forest[h].k = "P"
Seq_(h) == forest[h].s
Size(h) == Len(forest[h].s)

WithoutIters(P(_)) == [i \in {j \in DOMAIN iters : ~P(iters[j])} |-> iters[i]]
\* inserting into or erasing from h invalidates every iterator into h ...
Invalidated(h) == IF \A j \in DOMAIN iters : iters[j].h # h THEN iters
                  ELSE WithoutIters(LAMBDA x : x.h = h)
\* ... except the one the operation was called with, which moves to p
InvalidatedBut(h, it, p) ==
  [i \in {j \in DOMAIN iters : iters[j].h # h \/ j = it} |->
     IF i = it THEN [iters[i] EXCEPT !.p = p] ELSE iters[i]]
Put(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v] ELSE f @@ (x :> v)
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

(***************************************************************************)
(* Editing operations, as functions from the sequence and the arguments    *)
(* to the new sequence, a result and whether the operation must fail.      *)
(* `a' is a record of arguments.                                           *)
(***************************************************************************)
StructuralOps == {"push_back", "push_front", "pop_back", "pop_front", "ins_at",
                  "era_at", "insv", "ioa", "erk", "clear", "bulk_back"}
InPlaceOps == {"set_at", "set_rep", "upd_at", "asv", "upk"}
ItOps == {"it_ins", "it_era", "it_set", "it_upd"}

\* is the operation with these arguments within the documented preconditions?
Pre(op, s, a) ==
  CASE op \in {"push_back", "push_front", "clear", "insv", "ioa"} -> TRUE
    [] op = "bulk_back" -> a.off <= Len(s)
    [] op \in {"pop_back", "pop_front"} -> Len(s) > 0
    [] op = "ins_at" -> 0 <= a.i /\ a.i <= Len(s)
    [] op \in {"era_at", "set_at", "set_rep", "upd_at"} -> 0 <= a.i /\ a.i < Len(s)
    [] op = "asv" -> HasKey(cfg, s, KeyOf(cfg, a.e)) \/ cfg.safe = 1
    [] op \in {"erk", "upk"} -> HasKey(cfg, s, a.k) \/ cfg.safe = 1
    [] op \in {"upkbad", "proxybad"} -> HasKey(cfg, s, a.k) /\ cfg.safe = 1

\* which of these the library has to report instead of carrying out: a key
\* that is not there, an updater or assignment that would change the key
MustFail(op, s, a) ==
  CASE op = "asv" -> ~HasKey(cfg, s, KeyOf(cfg, a.e))
    [] op \in {"erk", "upk"} -> ~HasKey(cfg, s, a.k)
    [] op = "upkbad" -> a.d # 0
    [] op = "proxybad" -> KeyOf(cfg, a.e) # a.k
    [] OTHER -> FALSE

NewSeq(op, s, a) ==
  CASE op = "push_back" -> Append(s, a.e)
    [] op = "push_front" -> <<a.e>> \o s
    [] op = "bulk_back" -> SubSeq(s, 1, Len(s) - a.off) \o [j \in 1..a.n |-> a.e + (((j - 1) * a.d) % a.mod)]
                             \o SubSeq(s, Len(s) - a.off + 1, Len(s))
    [] op = "pop_back" -> SubSeq(s, 1, Len(s) - 1)
    [] op = "pop_front" -> Tail(s)
    [] op = "clear" -> <<>>
    [] op = "ins_at" -> InsertPos(s, a.i, a.e)
    [] op = "era_at" -> ErasePos(s, a.i)
    [] op \in {"set_at", "set_rep"} -> AssignPos(s, a.i, a.e)
    [] op = "upd_at" -> AssignPos(s, a.i, At(s, a.i) + a.d)
    [] op = "insv" -> InsertIfAbsent(cfg, s, a.e)
    [] op = "ioa" -> InsertOrAssign(cfg, s, a.e)
    [] op = "asv" -> AssignKey(cfg, s, a.e)
    [] op = "erk" -> EraseKey(cfg, s, a.k)
    [] op = "upk" -> LET p == LowerBound(cfg, s, a.k)   \* adds d to the mapped value
                     IN AssignPos(s, p, s[p + 1] + a.d)

\* what a mutable pop hands back
PopRes(op, s) == CASE op = "pop_back" -> Result(s[Len(s)]) [] op = "pop_front" -> Result(s[1])
                    [] OTHER -> NoRes

(* ------------------------- mutable edits ------------------------------- *)
Edit(op, h, a) ==
  /\ IsT(h) /\ Pre(op, Seq_(h), a)
  /\ IF MustFail(op, Seq_(h), a)
     THEN /\ res' = Failed /\ UNCHANGED <<forest, iters>>
     ELSE /\ forest' = [forest EXCEPT ![h].s = NewSeq(op, @, a)]
          /\ iters' = IF op \in StructuralOps THEN Invalidated(h) ELSE iters
          /\ res' = PopRes(op, Seq_(h))
  /\ UNCHANGED cfg

\* an updater supplied by the caller throws: nothing happens
EditThrows(op, h, a) ==
  /\ IsT(h) /\ Pre(op, Seq_(h), a)
  /\ res' = Failed /\ UNCHANGED <<cfg, forest, iters>>

(* edits through iterator `it' of a mutable tree; keep = 0: a temporary     *)
(* iterator was used, so no iterator survives a structural edit            *)
ItEdit(op, it, a, keep) ==
  LET x == iters[it]  h == x.h  s == Seq_(h)  p == x.p  n == Len(s) IN
  /\ it \in DOMAIN iters /\ IsT(h)
  /\ op = "it_ins" \/ ValidPos(n, p)
  /\ op = "it_ins" /\ x.r = 0 => 0 <= p
  /\ forest' = [forest EXCEPT ![h].s =
        CASE op = "it_ins" -> InsertPos(@, InsertSpot(n, p, x.r), a.e)
          [] op = "it_era" -> ErasePos(@, p)
          [] op = "it_set" -> AssignPos(@, p, a.e)
          [] op = "it_upd" -> AssignPos(@, p, At(@, p) + a.d)]
  /\ iters' =
        CASE op \in {"it_set", "it_upd"} -> iters
          [] keep = 0 -> Invalidated(h)
          [] op = "it_ins" -> InvalidatedBut(h, it, InsertSpot(n, p, x.r))
          [] op = "it_era" -> InvalidatedBut(h, it, IF x.r = 1 THEN p - 1 ELSE p)
  /\ res' = NoRes
  /\ UNCHANGED cfg

(* ------------------------- immutable edits ----------------------------- *)
PEdit(op, h, g, a) ==
  /\ IsP(h) /\ ~Live(g) /\ Pre(op, Seq_(h), a)
  /\ IF MustFail(op, Seq_(h), a)
     THEN res' = Failed /\ UNCHANGED forest
     ELSE /\ forest' = forest @@ (g :> [k |-> "P", s |-> NewSeq(op, Seq_(h), a)])
          /\ res' = NoRes
  /\ UNCHANGED <<cfg, iters>>

PEditThrows(op, h, a) ==
  /\ IsP(h) /\ Pre(op, Seq_(h), a)
  /\ res' = Failed /\ UNCHANGED <<cfg, forest, iters>>

PItEdit(op, it, g, a) ==
  LET x == iters[it]  h == x.h  s == Seq_(h)  p == x.p  n == Len(s) IN
  /\ it \in DOMAIN iters /\ IsP(h) /\ ~Live(g)
  /\ op = "it_ins" \/ ValidPos(n, p)
  /\ op = "it_ins" /\ x.r = 0 => 0 <= p
  /\ forest' = forest @@ (g :> [k |-> "P", s |->
        CASE op = "it_ins" -> InsertPos(s, InsertSpot(n, p, x.r), a.e)
          [] op = "it_era" -> ErasePos(s, p)
          [] op = "it_set" -> AssignPos(s, p, a.e)
          [] op = "it_upd" -> AssignPos(s, p, At(s, p) + a.d)])
  /\ res' = NoRes
  /\ UNCHANGED <<cfg, iters>>

(* --------------------- creation, conversion, copies -------------------- *)
New(h, kind) ==
  /\ ~Live(h)
  /\ forest' = forest @@ (h :> [k |-> kind, s |-> <<>>])
  /\ res' = NoRes /\ UNCHANGED <<cfg, iters>>
\* g becomes a tree of the given kind with h's contents (convert or copy)
Derive(h, g, kind) ==
  /\ Live(h) /\ ~Live(g)
  /\ forest' = forest @@ (g :> [k |-> kind, s |-> Seq_(h)])
  /\ res' = NoRes /\ UNCHANGED <<cfg, iters>>
\* the same by move: h is gone, and so are the iterators into it
DeriveMove(h, g, kind) ==
  /\ Live(h) /\ ~Live(g)
  /\ forest' = Drop(forest, h) @@ (g :> [k |-> kind, s |-> Seq_(h)])
  /\ iters' = Invalidated(h)
  /\ res' = NoRes /\ UNCHANGED cfg
\* g := h (same kind); iterators into g are invalidated
Assign(h, g) ==
  /\ Live(h) /\ Live(g) /\ forest[h].k = forest[g].k
  /\ forest' = [forest EXCEPT ![g].s = Seq_(h)]
  /\ iters' = Invalidated(g)
  /\ res' = Rebound /\ UNCHANGED cfg
AssignMove(h, g) ==
  /\ Live(h) /\ Live(g) /\ h # g /\ forest[h].k = forest[g].k
  /\ forest' = [x \in DOMAIN forest \ {h} |-> IF x = g THEN forest[h] ELSE forest[x]]
  /\ iters' = IF \E j \in DOMAIN iters : iters[j].h \in {g, h}
              THEN WithoutIters(LAMBDA x : x.h \in {g, h}) ELSE iters
  /\ res' = Rebound /\ UNCHANGED cfg
Swap(h, g) ==
  /\ Live(h) /\ Live(g) /\ h # g /\ forest[h].k = forest[g].k
  /\ forest' = [forest EXCEPT ![g] = forest[h], ![h] = forest[g]]
  /\ iters' = IF \E j \in DOMAIN iters : iters[j].h \in {g, h}
              THEN WithoutIters(LAMBDA x : x.h \in {g, h}) ELSE iters
  /\ res' = Rebound /\ UNCHANGED cfg
Destroy(h) ==
  /\ Live(h)
  /\ forest' = Drop(forest, h)
  /\ iters' = Invalidated(h)
  /\ res' = NoRes /\ UNCHANGED cfg

(* ------------------------------ iterators ------------------------------ *)
\* a new iterator into h at position p
MkIt(it, h, p, rev) ==
  /\ Live(h) /\ -1 <= p /\ p <= Size(h)
  /\ iters' = Put(iters, it, [h |-> h, p |-> p, r |-> rev])
  /\ res' = Result(p) /\ UNCHANGED <<cfg, forest>>
AdvIt(it, n) ==
  /\ it \in DOMAIN iters
  /\ LET x == iters[it]  q == Advance(Size(x.h), x.p, x.r, n)
     IN iters' = [iters EXCEPT ![it].p = q] /\ res' = Result(q)
  /\ UNCHANGED <<cfg, forest>>
CopyIt(it, jt) ==
  /\ it \in DOMAIN iters
  /\ iters' = Put(iters, jt, iters[it]) /\ res' = Result(iters[it].p)
  /\ UNCHANGED <<cfg, forest>>
DropIt(it) ==
  /\ it \in DOMAIN iters /\ iters' = Drop(iters, it)
  /\ res' = NoRes /\ UNCHANGED <<cfg, forest>>

(* ------------------ edits through proxy references --------------------- *)
\* `op' applied with right operand b to what the proxy at position p of the
\* mutable tree h denotes: the whole element, or the mapped value in a map
ProxyRead(s, p) == IF cfg.mp = 0 THEN s[p + 1] ELSE ValOf(cfg, s[p + 1])
ProxyWrite(s, p, v) ==
  AssignPos(s, p, IF cfg.mp = 0 THEN v ELSE MkElem(cfg, KeyOf(cfg, s[p + 1]), v))
CompoundOp(op) == CASE op = "+=" -> "+" [] op = "-=" -> "-" [] op = "*=" -> "*"
                    [] op = "/=" -> "/" [] op = "%=" -> "%" [] op = "&=" -> "&"
                    [] op = "|=" -> "|" [] op = "^=" -> "^" [] op = "<<=" -> "<<"
                    [] op = ">>=" -> ">>"
ProxyNew(op, old, b) ==
  CASE op \in {"++x", "x++"} -> old + 1
    [] op \in {"--x", "x--"} -> old - 1
    [] op = "=" -> b
    [] OTHER -> Arith(CompoundOp(op), old, b)
\* what the expression yields
ProxyVal(op, old, b) == IF op \in {"x++", "x--"} THEN old ELSE ProxyNew(op, old, b)
ProxyEdit(op, h, p, b) ==
  /\ IsT(h) /\ ValidPos(Size(h), p)
  /\ LET old == ProxyRead(Seq_(h), p)
     IN /\ forest' = [forest EXCEPT ![h].s = ProxyWrite(@, p, ProxyNew(op, old, b))]
        /\ res' = Result(ProxyVal(op, old, b))
  /\ UNCHANGED <<cfg, iters>>
ProxySwap(h, p, g, q) ==        \* position p of h and position q of g, maybe the same tree
  /\ IsT(h) /\ ValidPos(Size(h), p) /\ IsT(g) /\ ValidPos(Size(g), q)
  /\ forest' = [forest EXCEPT ![h].s[p + 1] = Seq_(g)[q + 1], ![g].s[q + 1] = Seq_(h)[p + 1]]
  /\ res' = (IF g = h THEN NoRes ELSE Both) /\ UNCHANGED <<cfg, iters>>
\* standard algorithms over [p, q)
Permuted(op, t, a) ==
  CASE op = "sort" -> SortSeq(t, LAMBDA x, y : x < y)
    [] op = "rsort" -> SortSeq(t, LAMBDA x, y : x > y)
    [] op = "reverse" -> Reverse(t)
    [] op = "rotate" -> SubSeq(t, a + 1, Len(t)) \o SubSeq(t, 1, a)
    [] op = "fill" -> [j \in 1..Len(t) |-> a]
    [] op = "addall" -> [j \in 1..Len(t) |-> t[j] + a]
Algorithm(op, h, p, q, a) ==
  /\ IsT(h) /\ 0 <= p /\ p <= q /\ q <= Size(h)
  /\ forest' = [forest EXCEPT ![h].s =
        SubSeq(@, 1, p) \o Permuted(op, SubSeq(@, p + 1, q), a) \o SubSeq(@, q + 1, Len(@))]
  /\ res' = NoRes /\ UNCHANGED <<cfg, iters>>

(***************************************************************************)
(* Properties of the contract itself                                       *)
(***************************************************************************)
\* C07: an immutable tree never changes while it lives
Immutable ==
  [][\A h \in DOMAIN forest :
       (forest[h].k = "P" /\ h \in DOMAIN forest' /\ res' # Rebound)
         => forest'[h] = forest[h]]_vars
\* C08: at most one live tree changes in a step, unless the call names two of them
Independent ==
  [][res' \notin {Rebound, Both} =>
       \A g, h \in DOMAIN forest \cap DOMAIN forest' :
         (g # h /\ forest'[g] # forest[g]) => forest'[h] = forest[h]]_vars
\* C16: an operation that reports failure changes nothing
FailureAtomic == [][res' = Failed => UNCHANGED <<forest, iters>>]_vars
\* C12/C10: every live iterator denotes a position of a live tree
ItersInRange ==
  \A i \in DOMAIN iters : /\ Live(iters[i].h)
                          /\ -1 <= iters[i].p /\ iters[i].p <= Size(iters[i].h)
=============================================================================
