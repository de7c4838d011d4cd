----------------------------- MODULE BppAnswers -----------------------------
(***************************************************************************)
(* What every read operation of the library must answer, as predicates     *)
(* over a recorded group of answers `e' and the sequence `s' the tree       *)
(* stands for.  Rows are tuples of integers; the comment above each         *)
(* predicate names the columns.  A position is 0-based, Len(s) stands for   *)
(* end, -1 for rend and -2 for "not an iterator of this tree".              *)
(***************************************************************************)
EXTENDS BppOps

B(x) == IF x THEN 1 ELSE 0
ValueAt(s, p) == IF ValidPos(Len(s), p) THEN s[p + 1] ELSE -1
\* what at_key, subscript and proxies yield for an element
Mapped(cfg, e) == IF cfg.mp = 0 THEN e ELSE ValOf(cfg, e)

(* contents, front to back (rv = 0) or back to front (rv = 1) *)
SeqMeta(e, s) ==
  /\ e.sz = Len(s) /\ e.em = B(Len(s) = 0)
  /\ Len(s) > 0 => e.f = s[1] /\ e.b = s[Len(s)]
WalkOf(e) == IF e.rv = 1 THEN Reverse(e.s) ELSE e.s
SeqAnswer(e, s) == WalkOf(e) = s /\ SeqMeta(e, s)

(* at: <<i, at_index, subscript, position of find_index, value there (const),
        value there (const), order of: that iterator, the const one, a const
        reverse iterator and a reverse iterator at the same position>>
   end: <<find_index(size()) is end() (twice), order(end()) (twice)>>      *)
IdxAnswer(e, s) ==
  LET n == Len(s) IN
  /\ e.end = <<1, 1, n, n>>
  /\ \A j \in 1..Len(e.at) :
       LET r == e.at[j]  i == r[1]  v == s[i + 1] IN
       r = <<i, v, v, i, v, v, i, i, i, i>>

(* q: <<k, contains, find (2 positions, const forms agree), lower_bound (same),
       upper_bound (same), value at find (2), at lower_bound, at upper_bound,
       at_key, subscript>>; at_key of an absent key: -2 reported, -1 not asked *)
KeyAnswer(cfg, e, s) ==
  \A j \in 1..Len(e.q) :
    LET r == e.q[j]  k == r[1]  n == Len(s)
        l == LowerBound(cfg, s, k)
        h == l < n /\ KeyOf(cfg, s[l + 1]) = k
        f == IF h THEN l ELSE n
        u == IF h THEN l + 1 ELSE l
        at == IF h THEN Mapped(cfg, s[l + 1]) ELSE IF cfg.safe = 1 THEN -2 ELSE -1
    IN r = <<k, B(h), f, f, 1, l, l, 1, u, u, 1,
             ValueAt(s, f), ValueAt(s, f), ValueAt(s, l), ValueAt(s, u), at, at>>

(* t: sum(); inc, exc: <<position, inclusive / exclusive sum>>;
   slb: <<target, position (2), const form agrees, value there>>           *)
SumAnswer(cfg, e, s) ==
  LET ps == PrefixSums(cfg, s)  n == Len(s) IN
  /\ e.t = ps[n + 1]
  /\ \A j \in 1..Len(e.inc) : e.inc[j][2] = ps[e.inc[j][1] + 2]
  /\ \A j \in 1..Len(e.exc) : e.exc[j][2] = ps[e.exc[j][1] + 1]
  /\ \A j \in 1..Len(e.slb) :
       LET t == e.slb[j][1]
           p == Cardinality({i \in 1..n : ps[i + 1] < t})
       IN e.slb[j] = <<t, p, p, 1, ValueAt(s, p)>>

(* w: <<min, position of min_element (3 forms), max, positions (3 forms)>>;
   rg: <<first, last, kind, min, positions (2), max, positions (2), value at
   min_element, value at max_element>>, for the inclusive range first..last *)
Carries(cfg, f, dir, s, a, b, best, p) ==
  a <= p /\ p <= b /\ Field(cfg, f, s[p + 1]) = best
MMAnswer(cfg, e, s) ==
  LET n == Len(s) IN
  /\ cfg.hmin = 1 =>
       LET m == Extreme(cfg, cfg.minf, cfg.mindir, s, 0, n - 1) IN
       /\ e.w[1] = m
       /\ \A j \in 2..4 : Carries(cfg, cfg.minf, cfg.mindir, s, 0, n - 1, m, e.w[j])
  /\ cfg.hmax = 1 =>
       LET m == Extreme(cfg, cfg.maxf, cfg.maxdir, s, 0, n - 1) IN
       /\ e.w[5] = m
       /\ \A j \in 6..8 : Carries(cfg, cfg.maxf, cfg.maxdir, s, 0, n - 1, m, e.w[j])
  /\ \A j \in 1..Len(e.rg) :
       LET r == e.rg[j]  a == r[1]  b == r[2] IN
       /\ cfg.hmin = 1 =>
            LET m == Extreme(cfg, cfg.minf, cfg.mindir, s, a, b) IN
            /\ r[4] = m
            /\ \A c \in 5..6 : Carries(cfg, cfg.minf, cfg.mindir, s, a, b, m, r[c])
            /\ r[10] = s[r[6] + 1]
       /\ cfg.hmax = 1 =>
            LET m == Extreme(cfg, cfg.maxf, cfg.maxdir, s, a, b) IN
            /\ r[7] = m
            /\ \A c \in 8..9 : Carries(cfg, cfg.maxf, cfg.maxdir, s, a, b, m, r[c])
            /\ r[11] = s[r[9] + 1]

(* j: <<p, position really started from, steps, reverse, kind, way, position
       reached, valid there, value by get(), value by operator-> >>          *)
JumpAnswer(e, s) ==
  LET n == Len(s) IN
  \A j \in 1..Len(e.j) :
    LET r == e.j[j]  q == Advance(n, r[1], r[4], r[3]) IN
    /\ r[2] = Clamp(n, r[1]) /\ r[7] = q /\ r[8] = B(ValidPos(n, q))
    /\ r[9] = ValueAt(s, q) /\ r[10] = ValueAt(s, q)

(* c: <<p, q, reverse (2: mixed directions), kind, <, <=, >, >=, ==, !=, b - a>> *)
CmpAnswer(e, s) ==
  \A j \in 1..Len(e.c) :
    LET r == e.c[j]  p == r[1]  q == r[2]  v == r[3]
        diffable == e.ix = 1 /\ v # 2 /\ ((p >= 0 /\ q >= 0) \/ v = 1)
    IN /\ r[9] = B(p = q) /\ r[10] = B(p # q)
       /\ v # 2 => /\ r[5] = B(ItLess(p, q, v)) /\ r[6] = B(~ItLess(q, p, v))
                   /\ r[7] = B(ItLess(q, p, v)) /\ r[8] = B(~ItLess(p, q, v))
       /\ diffable => r[11] = ItDiff(q, p, v)

(* q: <<operator, operands, result>>: operator 99 is get(); operands 0: the
   element and b, 1: b and the element, 2: the elements at i and j          *)
QueryOps == <<"==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>">>
ProxyQueryAnswer(cfg, e, s) ==
  LET x == Mapped(cfg, s[e.i + 1])  y == Mapped(cfg, s[e.j + 1]) IN
  \A j \in 1..Len(e.q) :
    LET r == e.q[j]
        a == IF r[2] = 1 THEN e.b ELSE x
        b == CASE r[2] = 0 -> e.b [] r[2] = 1 -> x [] r[2] = 2 -> y
    IN IF r[1] = 99 THEN r[3] = x
       ELSE IF r[1] <= 5 THEN r[3] = B(Rel(QueryOps[r[1] + 1], a, b))
       ELSE r[3] = Arith(QueryOps[r[1] + 1], a, b)

(* an iterator that stands at position p: where it was found, whether it is
   valid and what it shows                                                  *)
ItAnswer(e, s, p) ==
  /\ e.p = p /\ e.ok = B(ValidPos(Len(s), p))
  /\ ValidPos(Len(s), p) => e.val = s[p + 1] /\ e.val2 = s[p + 1]

(* ------------------------- limits and depth ---------------------------- *)
\* decimal digits (least significant first), because sizes exceed TLC's integers
RECURSIVE MulDigits(_, _, _)
MulDigits(ds, m, carry) ==
  IF ds = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % 10>> \o MulDigits(<<>>, m, carry \div 10)
  ELSE LET x == ds[1] * m + carry IN <<x % 10>> \o MulDigits(Tail(ds), m, x \div 10)
RECURSIVE CapacityDigits(_, _, _)
CapacityDigits(lc, ic, d) ==
  IF d = 1 THEN MulDigits(<<1>>, lc, 0) ELSE MulDigits(CapacityDigits(lc, ic, d - 1), ic, 0)
\* A position in a tree is one 64-bit number with room for a slot number (0..n) per level: how deep trees may become.
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
GreatestDepth(lc, ic, limit) == CHOOSE d \in 1..limit :
  /\ Bits(lc) + (d - 1) * Bits(ic) <= 64
  /\ d = limit \/ Bits(lc) + d * Bits(ic) > 64
\* fewest elements in a subtree of height d whose nodes are half full
RECURSIVE HalfFull(_, _, _)
HalfFull(lc, ic, d) == IF d = 1 THEN (lc + 1) \div 2 ELSE ((ic + 1) \div 2) * HalfFull(lc, ic, d - 1)
RECURSIVE Full(_, _, _)
Full(lc, ic, d) == IF d = 1 THEN lc ELSE IF d > 8 THEN 1000000 ELSE Min2(1000000, ic * Full(lc, ic, d - 1))
=============================================================================
