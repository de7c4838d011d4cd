----------------------------- MODULE BppTreeMC ------------------------------
(***************************************************************************)
(* All behaviours of the contract (BppTree) within small constants, with    *)
(* the laws the contract itself has to satisfy: the properties as stated    *)
(* must be consequences of the actions before the actions judge the code.   *)
(***************************************************************************)
EXTENDS BppTree

CONSTANTS Handles, Its, Elems, MaxLen, Km, Kdir, Ordered

MinusOne == -1
C == [km |-> Km, mp |-> IF Km = 1 THEN 0 ELSE 1, kdir |-> Kdir, safe |-> 1, sumf |-> IF Km = 1 THEN "e" ELSE "v"]
Init == Init0(C)

Keys == {KeyOf(C, e) : e \in Elems}
Fits(s) == Len(s) <= MaxLen /\ \A i \in 1..Len(s) : s[i] \in Elems
Free == {h \in Handles : ~Live(h)}
\* on ordered trees, positional edits are used within the order
InOrder(s) == ~Ordered \/ SortedByKey(C, s)

\* arguments of edits
Arg == UNION {
  {[op |-> o, a |-> [e |-> e]] : o \in {"push_back", "push_front"}, e \in Elems},
  {[op |-> o, a |-> [i |-> 0]] : o \in {"pop_back", "pop_front", "clear"}},
  {[op |-> "ins_at", a |-> [i |-> i, e |-> e]] : i \in 0..MaxLen, e \in Elems},
  {[op |-> "era_at", a |-> [i |-> i]] : i \in 0..MaxLen},
  {[op |-> "set_at", a |-> [i |-> i, e |-> e]] : i \in 0..MaxLen, e \in Elems},
  {[op |-> "upd_at", a |-> [i |-> i, d |-> d]] : i \in 0..MaxLen, d \in {-1, 1}} }
KArg == IF ~Ordered THEN {} ELSE UNION {
  {[op |-> o, a |-> [e |-> e]] : o \in {"insv", "ioa", "asv"}, e \in Elems},
  {[op |-> "erk", a |-> [k |-> k]] : k \in Keys},
  {[op |-> "upk", a |-> [k |-> k, d |-> d]] : k \in Keys, d \in {-1, 1}} }
ItArg == UNION {
  {[op |-> o, a |-> [e |-> e]] : o \in {"it_ins", "it_set"}, e \in Elems},
  {[op |-> "it_era", a |-> [e |-> 0]]}, {[op |-> "it_upd", a |-> [d |-> 1]]} }

Good == \A h \in DOMAIN forest' : Fits(forest'[h].s) /\ InOrder(forest'[h].s)

Next ==
  \/ \E h \in Free, k \in {"T", "P"} : New(h, k)
  \/ \E h \in Handles, x \in Arg \cup KArg : Edit(x.op, h, x.a) /\ Good
  \/ \E h \in Handles, g \in Free, x \in Arg \cup KArg : x.op # "clear" /\ PEdit(x.op, h, g, x.a) /\ Good
  \/ \E h \in Handles : EditThrows("clear", h, [i |-> 0])
  \/ \E i \in DOMAIN iters, x \in ItArg, keep \in {0, 1} : ItEdit(x.op, i, x.a, keep) /\ Good
  \/ \E i \in DOMAIN iters, g \in Free, x \in ItArg : PItEdit(x.op, i, g, x.a) /\ Good
  \/ \E h \in Handles, g \in Free, k \in {"T", "P"} : Derive(h, g, k) \/ DeriveMove(h, g, k)
  \/ \E h, g \in Handles : Assign(h, g) \/ AssignMove(h, g) \/ Swap(h, g)
  \/ \E h \in Handles : Destroy(h)
  \/ \E i \in Its \ DOMAIN iters, h \in Handles, r \in {0, 1} : Live(h) /\ \E p \in -1..Size(h) : MkIt(i, h, p, r)
  \/ \E i \in DOMAIN iters, n \in -3..3 : AdvIt(i, n)
  \/ \E i \in DOMAIN iters : DropIt(i)
  \/ \E i \in DOMAIN iters, j \in Its : CopyIt(i, j)
  \/ ~Ordered /\ \E h, g \in Handles, p, q \in 0..MaxLen : ProxySwap(h, p, g, q) /\ Good
  \/ \E h \in Handles, p \in 0..MaxLen, o \in {"+=", "-=", "++x", "x--", "="} : ProxyEdit(o, h, p, 1) /\ Good
  \/ ~Ordered /\ \E h \in Handles, o \in {"sort", "rsort", "reverse", "rotate"}, p, q \in 0..MaxLen : Algorithm(o, h, p, q, Min2(1, q - p)) /\ Good

Spec == Init /\ [][Next]_vars

\* the result of the last operation is observed, not stored
View == <<forest, iters>>

(* ------------------------------- laws ---------------------------------- *)
TypeOK ==
  /\ \A h \in DOMAIN forest : forest[h].k \in {"T", "P"} /\ Fits(forest[h].s)
  /\ \A i \in DOMAIN iters : iters[i].r \in {0, 1}
Sequences_ == {forest[h].s : h \in DOMAIN forest}
\* C02: keys stay unique and in order, with no help from the arguments
KeysSorted == Ordered => \A s \in Sequences_ : SortedByKey(C, s)
\* C03: bisection finds what the definition says
BisectionIsLowerBound ==
  Ordered => \A s \in Sequences_, k \in Keys :
    /\ LowerBound(C, s, k) = LowerBoundDef(C, s, k)
    /\ UpperBound(C, s, k) = UpperBoundDef(C, s, k)
    /\ HasKey(C, s, k) <=> \E i \in 1..Len(s) : KeyOf(C, s[i]) = k
    /\ UpperBound(C, s, k) - LowerBound(C, s, k) \in {0, 1}
\* C05: prefix sums and the sum search agree with their definitions
SumLaws ==
  \A s \in Sequences_ :
    LET ps == PrefixSums(C, s) IN
    /\ ps[Len(s) + 1] = Total(C, s)
    /\ \A i \in 1..Len(s) : ps[i + 1] - ps[i] = Field(C, C.sumf, s[i])
    /\ SumsNonNegative(C, s) => \A t \in 0..(Total(C, s) + 1) :
         LET p == SumLowerBound(C, s, t) IN
         /\ p < Len(s) => ps[p + 2] >= t
         /\ \A q \in 0..(p - 1) : ps[q + 2] < t
\* C06: the extreme of a range is carried by an element of it and bounds it
ExtremeLaws ==
  \A s \in Sequences_ : \A b \in 0..(Len(s) - 1) : \A a \in 0..b :
    LET m == Extreme(C, "e", 1, s, a, b)  x == Extreme(C, "e", -1, s, a, b) IN
    /\ \E i \in a..b : s[i + 1] = m
    /\ \E i \in a..b : s[i + 1] = x
    /\ \A i \in a..b : m <= s[i + 1] /\ s[i + 1] <= x
\* C10/C11: jumps compose while they stay inside, differences undo them, order is strict
IterLaws ==
  \A h \in DOMAIN forest : LET n == Size(h) IN
    \A p \in -1..n, r \in {0, 1}, d \in -3..3 :
      LET q == Advance(n, p, r, d) IN
      /\ -1 <= q /\ q <= n
      /\ (q = p + Dir(r) * d) => ItDiff(q, p, r) = d /\ Advance(n, q, r, -d) = p
      /\ ~ItLess(p, p, r)
      /\ (d > 0 /\ q # p) => ItLess(p, q, r)
=============================================================================
