-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Accepts exactly the recorded behaviours of the real library that are     *)
(* behaviours of BppTree: every event names the public operation that was   *)
(* called, its arguments and what it returned, and must be explained by the *)
(* corresponding action; observations must be what BppAnswers says about    *)
(* the state.  An event without an action here (Crash, Hang) is never       *)
(* accepted.                                                                *)
(*                                                                         *)
(* Learn = TRUE: the contents of a tree are taken from what walking it      *)
(* showed, so that only the agreement of queries with contents is decided.  *)
(* Learn = FALSE: contents must be what the operations prescribe.           *)
(***************************************************************************)
EXTENDS BppTree, BppAnswers, Json, IOUtils, TLCExt

CONSTANTS Learn,    \* see above
          Checks    \* subset of {"depth", "cost", "over"}: further demands on each event,
                    \* or insertions beyond the greatest depth

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          hist      \* handle -> what its depth and the cost of its edits depend on
tvars == <<vars, l, hist>>

IsEvent(o) == l <= Len(Log) /\ Log[l].o = o /\ l' = l + 1
E == Log[l]
Has(f) == f \in DOMAIN E
Same == UNCHANGED vars
Depth == "depth" \in Checks
Cost == "cost" \in Checks /\ cfg.alc = 1

(***************************************************************************)
(* How a tree came about, as far as the bounds of C17 and C18 depend on it: *)
(*   mode   2: only appended to since it was empty, 1: only inserted into,  *)
(*          0: anything else;                                               *)
(*   own    TRUE if no node was ever shared with another tree;              *)
(*   warm   positions whose path from the root was edited since the tree    *)
(*          last shared its nodes;                                          *)
(*   root   TRUE if the root is not shared.                                 *)
(***************************************************************************)
Blank == [mode |-> 2, own |-> TRUE, warm |-> {}, root |-> TRUE]
Shared(x) == [x EXCEPT !.own = FALSE, !.warm = {}, !.root = FALSE]
\* elements next to position p in the same node
Beside(p, q) == IF ~Has("nb") THEN {} ELSE (IF E.nb % 2 = 1 THEN {p - 1} ELSE {}) \cup (IF E.nb >= 2 THEN {q} ELSE {})
InsertedAt(x, p, n) ==      \* n: size before
  [x EXCEPT !.root = TRUE, !.mode = IF p = n THEN @ ELSE Min2(@, 1),
            !.warm = IF Cost THEN {IF j < p THEN j ELSE j + 1 : j \in @} \cup {p} \cup Beside(p, p + 1) ELSE @]
ErasedAt(x, p, n) ==        \* without its last element a tree starts afresh
  IF n = 1 THEN Blank ELSE
  LET warm == {IF j < p THEN j ELSE j - 1 : j \in x.warm \ {p}} \cup Beside(p, p) IN
  [x EXCEPT !.mode = 0, !.warm = warm,      \* the root may have made way for its only child
            !.root = warm # {} \/ (Has("d0") /\ E.dp = E.d0)]
ChangedAt(x, p) == IF Cost THEN [x EXCEPT !.warm = @ \cup {p}, !.root = TRUE] ELSE x
WrittenAt(x, p) == IF Cost THEN [x EXCEPT !.warm = @ \cup {p} \cup Beside(p, p + 1), !.root = TRUE] ELSE x
\* the kind of edit `op' with arguments e is on s: inserting, erasing, changing or nothing, and where
KeyPos(s, k) == LowerBound(cfg, s, k)
EditKind(op, s, e) ==
  CASE op = "push_back" -> <<"ins", Len(s)>> [] op = "push_front" -> <<"ins", 0>>
    [] op = "ins_at" -> <<"ins", e.i>>
    [] op = "pop_back" -> <<"era", Len(s) - 1>> [] op = "pop_front" -> <<"era", 0>>
    [] op = "era_at" -> <<"era", e.i>>
    [] op \in {"set_at", "set_rep", "upd_at"} -> <<"chg", e.i>>
    [] op \in {"insv", "ioa", "asv"} ->
         LET k == KeyOf(cfg, e.e) IN
         IF HasKey(cfg, s, k) THEN <<IF op = "insv" THEN "nop" ELSE "chg", KeyPos(s, k)>>
         ELSE <<"ins", KeyPos(s, k)>>
    [] op = "erk" -> <<"era", KeyPos(s, e.k)>>
    [] op = "upk" -> <<"chg", KeyPos(s, e.k)>>
    [] op = "clear" -> <<"clr", 0>>
    [] op = "bulk_back" -> <<"bulk", Len(s) - e.off>>
    [] OTHER -> <<"nop", 0>>
ItEditKind(op, x, s) ==
  CASE op = "it_ins" -> <<"ins", InsertSpot(Len(s), x.p, x.r)>>
    [] op = "it_era" -> <<"era", x.p>> [] OTHER -> <<"chg", x.p>>
After(x, kind, n) ==
  CASE kind[1] = "ins" -> InsertedAt(x, kind[2], n) [] kind[1] = "era" -> ErasedAt(x, kind[2], n)
    [] kind[1] = "chg" -> WrittenAt(x, kind[2]) [] kind[1] = "clr" -> Blank
    [] kind[1] = "bulk" -> IF E.n > 0 THEN ChangedAt([x EXCEPT !.mode = IF E.off = 0 THEN @ ELSE Min2(@, 1)], kind[2] + E.n - 1) ELSE x
    [] OTHER -> x
\* C17: blocks allocated by an edit of a mutable tree that had depth d0
EditCost(x, kind, n) ==
  CASE kind[1] = "nop" -> E.al <= E.d0
    [] kind[1] = "era" /\ n = 1 -> E.al <= 1
    [] kind[1] \in {"chg", "era"} -> IF x.own \/ kind[2] \in x.warm THEN E.al = 0 ELSE E.al <= E.d0 - (IF x.root THEN 1 ELSE 0)
    [] kind[1] = "ins" -> E.al <= (IF x.own THEN 0 ELSE E.d0 - (IF x.root THEN 1 ELSE 0)) + E.d0 + 1
    [] kind[1] = "clr" -> E.al <= 1
    [] OTHER -> TRUE
\* ... and of an immutable one: one per level, one per split, one for a new root
PEditCost(kind) ==
  CASE kind[1] = "ins" -> E.al <= 2 * E.d0 + 1 [] OTHER -> E.al <= E.d0
\* C18: depth d of a tree of n elements
DepthOK(x, n, d) ==
  /\ 1 <= d /\ d <= cfg.md
  /\ n = 0 => d = 1
  /\ d > 1 => n >= 2
  /\ (x.mode >= 1 /\ d > 1) => n > HalfFull(cfg.lc, cfg.ic, d - 1)
  /\ (x.mode = 2 /\ d > 1) => n > Full(cfg.lc, cfg.ic, d - 1)
HSame == UNCHANGED hist
KeepHist(x) == hist' = IF Checks = {} THEN hist ELSE x
HistEdit(h, g, kind, own) ==     \* g is h after the edit
  IF Checks = {} THEN HSame ELSE
  /\ hist' = Put(hist, g, LET y == After(hist[h], kind, Len(forest[h].s)) IN IF own THEN y ELSE Shared(y))
  /\ Depth => DepthOK(hist'[g], Len(forest'[g].s), E.dp)
NoAlloc == Cost => E.al = 0

S(h) == forest[h].s

SizeOK(h) == E.sz = Len(forest'[h].s)
\* an iterator's state after the operation
ItOK(it) == LET x == iters'[it] IN ItAnswer(E, forest'[x.h].s, x.p)

TInit == Init0([km |-> 1, mp |-> 0, kdir |-> 1, safe |-> 0]) /\ l = 1 /\ hist = Empty

TCfg ==
  /\ IsEvent("Cfg")
  /\ cfg' = E /\ forest' = Empty /\ iters' = Empty /\ res' = NoRes /\ hist' = Empty

TEdit ==
  /\ IsEvent("E") /\ Edit(E.op, E.h, E)
  /\ IF E.x = 0
     THEN res' # Failed /\ SizeOK(E.h) /\ (E.op \in {"pop_back", "pop_front"} => res' = Result(E.r))
     ELSE res' = Failed /\ E.x = 1
  /\ IF E.x # 0 THEN HSame
     ELSE LET kind == EditKind(E.op, S(E.h), E) IN
          HistEdit(E.h, E.h, kind, TRUE) /\ (Cost /\ Has("al") => EditCost(hist[E.h], kind, Size(E.h)))
TPEdit ==
  /\ IsEvent("PE") /\ PEdit(E.op, E.h, E.g, E)
  /\ IF E.x = 0 THEN res' # Failed /\ SizeOK(E.g) ELSE res' = Failed /\ E.x = 1
  /\ IF E.x # 0 THEN HSame
     ELSE LET kind == EditKind(E.op, S(E.h), E) IN
          HistEdit(E.h, E.g, kind, FALSE) /\ (Cost => PEditCost(kind))
TItEdit ==
  /\ IsEvent("I") /\ ItEdit(E.op, E.it, E, E.keep) /\ E.h = iters[E.it].h /\ SizeOK(E.h)
  /\ E.it \in DOMAIN iters' => ItOK(E.it)
  /\ LET kind == ItEditKind(E.op, iters[E.it], S(E.h)) IN
     HistEdit(E.h, E.h, kind, TRUE) /\ (Cost => EditCost(hist[E.h], kind, Size(E.h)))
TPItEdit ==
  /\ IsEvent("PI") /\ PItEdit(E.op, E.it, E.g, E) /\ SizeOK(E.g) /\ ItOK(E.it)
  /\ LET h == iters[E.it].h  kind == ItEditKind(E.op, iters[E.it], S(h)) IN
     HistEdit(h, E.g, kind, FALSE) /\ (Cost => PEditCost(kind))
\* an insertion for which the tree would have to become deeper than it may is refused
Over == "over" \in Checks /\ E.x = 1 /\ E.d0 = cfg.md /\ EditKind(E.op, S(E.h), E)[1] = "ins"
TOver ==
  /\ IsEvent("E") /\ IsT(E.h) /\ Over /\ res' = Failed /\ UNCHANGED <<cfg, forest, iters>> /\ SizeOK(E.h) /\ HSame
TPOver ==
  /\ IsEvent("PE") /\ IsP(E.h) /\ Over /\ res' = Failed /\ UNCHANGED <<cfg, forest, iters>> /\ HSame
TThrow ==
  /\ IsEvent("Thr") /\ Live(E.h) /\ Size(E.h) > 0
  /\ res' = Failed /\ UNCHANGED <<cfg, forest, iters>> /\ E.x = 1 /\ SizeOK(E.h) /\ HSame

TNew == IsEvent("New") /\ New(E.h, E.k) /\ KeepHist(Put(hist, E.h, Blank))
TDerive ==
  /\ IsEvent("Drv") /\ Derive(E.h, E.g, E.k) /\ SizeOK(E.g) /\ NoAlloc
  /\ KeepHist(Put(Put(hist, E.h, Shared(hist[E.h])), E.g, Shared(hist[E.h])))
  /\ Depth => DepthOK(hist'[E.g], Len(forest'[E.g].s), E.dp)
TDeriveMove ==
  /\ IsEvent("DrvM") /\ DeriveMove(E.h, E.g, E.k) /\ SizeOK(E.g) /\ NoAlloc
  /\ KeepHist(Put(hist, E.g, IF IsT(E.h) /\ E.k = "T" THEN hist[E.h] ELSE Shared(hist[E.h])))
TAssign ==
  /\ IsEvent("Asg") /\ Assign(E.h, E.g) /\ SizeOK(E.g) /\ NoAlloc
  /\ KeepHist([hist EXCEPT ![E.h] = Shared(@), ![E.g] = Shared(hist[E.h])])
TAssignMove ==
  /\ IsEvent("AsgM") /\ AssignMove(E.h, E.g) /\ SizeOK(E.g) /\ NoAlloc
  /\ KeepHist([hist EXCEPT ![E.g] = hist[E.h]])
TSwap ==
  /\ IsEvent("Swp") /\ Swap(E.h, E.g) /\ SizeOK(E.g) /\ NoAlloc
  /\ KeepHist([hist EXCEPT ![E.g] = hist[E.h], ![E.h] = hist[E.g]])
TDestroy == IsEvent("Del") /\ Destroy(E.h) /\ HSame /\ NoAlloc

MkPos(how, s) ==
  CASE how = "begin" -> 0 [] how = "end" -> Len(s)
    [] how = "rbegin" -> Len(s) - 1 [] how = "rend" -> -1
    [] how \in {"step", "index"} -> E.i
    [] how = "find" -> FindPos(cfg, s, E.i)
    [] how = "lb" -> LowerBound(cfg, s, E.i)
    [] how = "ub" -> UpperBound(cfg, s, E.i)
    [] how = "slb" -> SumLowerBound(cfg, s, E.i)
    [] how \in {"mine", "maxe"} -> E.p
TMk ==
  /\ IsEvent("Mk") /\ Live(E.h)
  /\ MkIt(E.it, E.h, MkPos(E.how, S(E.h)), E.r)
  /\ E.how = "mine" => LET n == Size(E.h) IN
        Carries(cfg, cfg.minf, cfg.mindir, S(E.h), 0, n - 1,
                Extreme(cfg, cfg.minf, cfg.mindir, S(E.h), 0, n - 1), E.p)
  /\ E.how = "maxe" => LET n == Size(E.h) IN
        Carries(cfg, cfg.maxf, cfg.maxdir, S(E.h), 0, n - 1,
                Extreme(cfg, cfg.maxf, cfg.maxdir, S(E.h), 0, n - 1), E.p)
  /\ ItOK(E.it) /\ NoAlloc /\ HSame
TAdv == IsEvent("Adv") /\ AdvIt(E.it, E.n) /\ ItOK(E.it) /\ NoAlloc /\ HSame
TCpIt == IsEvent("CpIt") /\ CopyIt(E.it, E.jt) /\ ItOK(E.jt) /\ HSame
TDrIt == IsEvent("DrIt") /\ DropIt(E.it) /\ HSame

TProxy ==
  /\ IsEvent("Px") /\ ProxyEdit(E.op, E.h, E.i, E.b) /\ res' = Result(E.res) /\ SizeOK(E.h)
  /\ KeepHist([hist EXCEPT ![E.h] = ChangedAt(@, E.i)])
TProxySwap ==
  /\ IsEvent("PxS") /\ ProxySwap(E.h, E.i, E.g, E.j)
  /\ KeepHist(LET x == [hist EXCEPT ![E.h] = ChangedAt(@, E.i)] IN [x EXCEPT ![E.g] = ChangedAt(@, E.j)])
TAlg == IsEvent("Alg") /\ Algorithm(E.op, E.h, E.i, E.j, E.d) /\ HSame
TProxyQuery == IsEvent("PxQ") /\ IsT(E.h) /\ (ProxyQueryAnswer(cfg, E, S(E.h)) = TRUE) /\ Same /\ HSame

TSeq ==
  /\ IsEvent("Seq") /\ Live(E.h)
  /\ Depth => DepthOK(hist[E.h], E.sz, E.dp)
  /\ IF Learn
     THEN /\ SeqMeta(E, WalkOf(E))
          /\ forest' = [forest EXCEPT ![E.h].s = WalkOf(E)]
          /\ UNCHANGED <<cfg, iters, res>> /\ HSame
     ELSE (SeqAnswer(E, S(E.h)) = TRUE) /\ Same /\ HSame
TIdx == IsEvent("Idx") /\ Live(E.h) /\ (IdxAnswer(E, S(E.h)) = TRUE) /\ Same /\ HSame
TKey == IsEvent("Key") /\ Live(E.h) /\ (KeyAnswer(cfg, E, S(E.h)) = TRUE) /\ Same /\ HSame
TSum == IsEvent("Sum") /\ Live(E.h) /\ (SumAnswer(cfg, E, S(E.h)) = TRUE) /\ Same /\ HSame
TMM == IsEvent("MM") /\ Live(E.h) /\ Size(E.h) > 0 /\ (MMAnswer(cfg, E, S(E.h)) = TRUE) /\ Same /\ HSame
TJump == IsEvent("Jump") /\ Live(E.h) /\ (JumpAnswer(E, S(E.h)) = TRUE) /\ Same /\ HSame
TCmp == IsEvent("Cmp") /\ Live(E.h) /\ (CmpAnswer(E, S(E.h)) = TRUE) /\ Same /\ HSame
TIt == IsEvent("IO") /\ E.it \in DOMAIN iters /\ (ItAnswer(E, S(iters[E.it].h), iters[E.it].p) = TRUE) /\ Same /\ HSame
\* iterators of different trees: never equal; ordering them is reported
TAlien ==
  /\ IsEvent("Alien") /\ Live(E.h) /\ Live(E.g) /\ E.h # E.g
  /\ SubSeq(E.r, 1, 4) = <<0, 0, 1, 0>>
  /\ cfg.safe = 1 => E.r[5] = 1
  /\ Same /\ HSame
\* the extreme of an empty tree is reported
TEmptyMM ==
  /\ IsEvent("EmptyMM") /\ Live(E.h) /\ Size(E.h) = 0
  /\ \A j \in 1..Len(E.r) : E.r[j] = 1
  /\ Same /\ HSame
TLim ==
  /\ IsEvent("Lim") /\ Live(E.h) /\ E.sz = Size(E.h) /\ E.dp <= E.md
  /\ E.ms = CapacityDigits(cfg.lc, cfg.ic, E.md) /\ E.md = cfg.md
  \* what was asked for: as deep as the limit and 64-bit positions permit, nodes no larger than the bytes given
  /\ E.md = GreatestDepth(cfg.lc, cfg.ic, cfg.lim)
  /\ cfg.mlb <= cfg.lb /\ cfg.mnb <= Max2(cfg.lb, cfg.ib)
  /\ Same /\ HSame

TNext ==
  \/ TCfg \/ TEdit \/ TPEdit \/ TItEdit \/ TPItEdit \/ TThrow
  \/ TNew \/ TDerive \/ TDeriveMove \/ TAssign \/ TAssignMove \/ TSwap \/ TDestroy
  \/ TMk \/ TAdv \/ TCpIt \/ TDrIt
  \/ TOver \/ TPOver \/ TProxy \/ TProxySwap \/ TAlg \/ TProxyQuery
  \/ TSeq \/ TIdx \/ TKey \/ TSum \/ TMM \/ TJump \/ TCmp \/ TIt
  \/ TAlien \/ TEmptyMM \/ TLim

TSpec == TInit /\ [][TNext]_tvars
\* prints the state before event number AT (for reports); always true
Show == IF "AT" \in DOMAIN IOEnv /\ ToString(l) = IOEnv.AT THEN PrintT(<<"STATE", forest, iters, res, hist>>) ELSE TRUE
Accepted ==
  LET d == TLCGet("stats").diameter
  IN PrintT(<<"MATCHED", d - 1, Len(Log)>>) /\ d - 1 = Len(Log)
=============================================================================
