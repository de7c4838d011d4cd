------------------------------- MODULE BppOps -------------------------------
(***************************************************************************)
(* What a B++ tree means, as operators on finite sequences.                *)
(*                                                                         *)
(* A tree holds a sequence of elements.  Elements are integers; `cfg' says *)
(* how an element is read: key(e) = e \div km and val(e) = e % km (km = 1   *)
(* for trees whose elements are plain values), which field is summed and   *)
(* which field the min/max mixins look at, and in which direction keys and *)
(* extremes are ordered.  Positions are 0-based; position -1 is "before    *)
(* the first element" (rend) and position Len(s) is end.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

(* ------------------------------ fields --------------------------------- *)
KeyOf(cfg, e) == e \div cfg.km
ValOf(cfg, e) == e % cfg.km
MkElem(cfg, k, v) == k * cfg.km + v
Field(cfg, f, e) == CASE f = "e" -> e
                      [] f = "k" -> KeyOf(cfg, e)
                      [] f = "v" -> ValOf(cfg, e)
                      [] f = "s" -> KeyOf(cfg, e) + ValOf(cfg, e)
                      [] f = "t" -> 10 - e
KLess(cfg, a, b) == IF cfg.kdir = 1 THEN a < b ELSE b < a

(* --------------------------- positional edits -------------------------- *)
InsertPos(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
ErasePos(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
AssignPos(s, i, e) == [s EXCEPT ![i + 1] = e]
At(s, i) == s[i + 1]

(* ----------------------------- keyed reads ----------------------------- *)
\* first position whose key is not less than k, by definition ...
LowerBoundDef(cfg, s, k) ==
  Len(SelectSeq(s, LAMBDA e : KLess(cfg, KeyOf(cfg, e), k)))
UpperBoundDef(cfg, s, k) ==
  Len(SelectSeq(s, LAMBDA e : ~KLess(cfg, k, KeyOf(cfg, e))))
\* ... and by bisection, which is the same on sorted sequences (checked in
\* BppTree!BisectionIsLowerBound) and fast enough for long traces
RECURSIVE BisectL(_, _, _, _, _)
BisectL(cfg, s, k, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF KLess(cfg, KeyOf(cfg, s[m + 1]), k) THEN BisectL(cfg, s, k, m + 1, hi)
                                                ELSE BisectL(cfg, s, k, lo, m)
RECURSIVE BisectU(_, _, _, _, _)
BisectU(cfg, s, k, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF ~KLess(cfg, k, KeyOf(cfg, s[m + 1])) THEN BisectU(cfg, s, k, m + 1, hi)
                                                 ELSE BisectU(cfg, s, k, lo, m)
LowerBound(cfg, s, k) == BisectL(cfg, s, k, 0, Len(s))
UpperBound(cfg, s, k) == BisectU(cfg, s, k, 0, Len(s))
HasKey(cfg, s, k) ==
  LET p == LowerBound(cfg, s, k) IN p < Len(s) /\ KeyOf(cfg, s[p + 1]) = k
FindPos(cfg, s, k) == IF HasKey(cfg, s, k) THEN LowerBound(cfg, s, k) ELSE Len(s)
SortedByKey(cfg, s) ==
  \A i \in 1..(Len(s) - 1) : KLess(cfg, KeyOf(cfg, s[i]), KeyOf(cfg, s[i + 1]))

(* ----------------------------- keyed edits ----------------------------- *)
InsertIfAbsent(cfg, s, e) ==
  LET p == LowerBound(cfg, s, KeyOf(cfg, e))
  IN IF HasKey(cfg, s, KeyOf(cfg, e)) THEN s ELSE InsertPos(s, p, e)
InsertOrAssign(cfg, s, e) ==
  LET p == LowerBound(cfg, s, KeyOf(cfg, e))
  IN IF HasKey(cfg, s, KeyOf(cfg, e)) THEN AssignPos(s, p, e) ELSE InsertPos(s, p, e)
AssignKey(cfg, s, e) == AssignPos(s, LowerBound(cfg, s, KeyOf(cfg, e)), e)
EraseKey(cfg, s, k) == ErasePos(s, LowerBound(cfg, s, k))

(* ------------------------------- sums ---------------------------------- *)
\* prefix sums p[i+1] = sum of the first i fields; p has Len(s)+1 entries
RECURSIVE PrefixSums(_, _)
PrefixSums(cfg, s) ==
  IF Len(s) <= 200
  THEN FoldLeft(LAMBDA acc, e : Append(acc, acc[Len(acc)] + Field(cfg, cfg.sumf, e)), <<0>>, s)
  ELSE LET h == Len(s) \div 2
           a == PrefixSums(cfg, SubSeq(s, 1, h))
           b == PrefixSums(cfg, SubSeq(s, h + 1, Len(s)))
           t == a[h + 1]
       IN a \o [i \in 1..(Len(s) - h) |-> t + b[i + 1]]
Total(cfg, s) == FoldLeft(LAMBDA acc, e : acc + Field(cfg, cfg.sumf, e), 0, s)
\* first position whose inclusive sum reaches t
SumLowerBound(cfg, s, t) ==
  LET ps == PrefixSums(cfg, s)
  IN Len(SelectSeq(Tail(ps), LAMBDA x : x < t))
SumsNonNegative(cfg, s) == \A i \in 1..Len(s) : Field(cfg, cfg.sumf, s[i]) >= 0

(* ------------------------------ extremes ------------------------------- *)
\* dir = 1: least, dir = -1: greatest; f: field; over positions a..b (0-based)
Best(x, y, dir) == IF dir = 1 THEN Min2(x, y) ELSE Max2(x, y)
Extreme(cfg, f, dir, s, a, b) ==
  FoldLeft(LAMBDA acc, e : Best(acc, Field(cfg, f, e), dir),
           Field(cfg, f, s[a + 1]), SubSeq(s, a + 1, b + 1))

(* ------------------------------ iterators ------------------------------ *)
Clamp(n, p) == IF p < -1 THEN -1 ELSE IF p > n THEN n ELSE p
Dir(rev) == IF rev = 1 THEN -1 ELSE 1
Advance(n, p, rev, d) == Clamp(n, p + Dir(rev) * d)
ValidPos(n, p) == 0 <= p /\ p < n
\* where an element inserted through an iterator lands: before a forward
\* iterator, and before a reverse iterator in its own direction
InsertSpot(n, p, rev) == IF rev = 1 THEN Min2(p + 1, n) ELSE p
\* order along the direction of travel
ItLess(p, q, rev) == IF rev = 1 THEN q < p ELSE p < q
\* number of increments from a to b
ItDiff(b, a, rev) == Dir(rev) * (b - a)

(* ---------------------------- proxy operators -------------------------- *)
TruncDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TruncMod(a, b) == a - b * TruncDiv(a, b)
RECURSIVE BitOp(_, _, _)
BitOp(op, a, b) ==      \* on non-negative integers
  IF a = 0 /\ b = 0 THEN 0
  ELSE LET x == a % 2  y == b % 2
           z == CASE op = "&" -> x * y
                  [] op = "|" -> Max2(x, y)
                  [] op = "^" -> (x + y) % 2
       IN z + 2 * BitOp(op, a \div 2, b \div 2)
Arith(op, a, b) ==
  CASE op = "+" -> a + b
    [] op = "-" -> a - b
    [] op = "*" -> a * b
    [] op = "/" -> TruncDiv(a, b)
    [] op = "%" -> TruncMod(a, b)
    [] op \in {"&", "|", "^"} -> BitOp(op, a, b)
    [] op = "<<" -> a * (2 ^ b)
    [] op = ">>" -> a \div (2 ^ b)
Rel(op, a, b) ==
  CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
    [] op = ">" -> a > b  [] op = "<=" -> a <= b [] op = ">=" -> a >= b
=============================================================================
