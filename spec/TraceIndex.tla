------------------------------ MODULE TraceIndex ----------------------------
(***************************************************************************)
(* Accepts exactly the recorded histories of inverted indices built from    *)
(* two real trees that are behaviours of InvIndex.                          *)
(***************************************************************************)
EXTENDS InvIndex, Json, IOUtils, TLCExt
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<ix, l>>
E == Log[l]
M == ix[E.h].m

(* ts, cs: the terms and counts walked in order; is, es: their inclusive and
   exclusive sums; ds: all documents; tot: sum of all counts; n: documents  *)
DumpOK ==
  LET m == M  n == Len(TermSeq(m)) IN
  /\ E.ts = TermSeq(m) /\ E.cs = Counts(m) /\ E.ds = Docs(m)
  /\ E.tot = Len(E.ds) /\ E.n = Len(E.ds)
  /\ E.is = [j \in 1..n |-> UpTo(m, E.ts[j])]
  /\ E.es = [j \in 1..n |-> Before(m, E.ts[j])]
(* q: <<term, found, first position, position behind, documents there ...>> *)
LookOK ==
  LET m == M IN
  \A j \in 1..Len(E.q) :
    LET r == E.q[j]  t == r[1] IN
    IF t \in DOMAIN m
    THEN r = <<t, 1, Before(m, t), UpTo(m, t)>> \o Sorted(m[t])
    ELSE r = <<t, 0>>
(* q: <<document position, term it belongs to>>                            *)
OwnOK == LET m == M IN \A j \in 1..Len(E.q) : E.q[j][2] = OwnerOf(m, E.q[j][1])
(* seen through the example's interface only: <<term, count, documents>>    *)
ViewOK ==
  LET m == M  ts == TermSeq(m) IN
  /\ Len(E.q) = Len(ts)
  /\ \A j \in 1..Len(ts) : E.q[j] = <<ts[j], Cardinality(m[ts[j]])>> \o Sorted(m[ts[j]])

Same == UNCHANGED ix
TInit == IxInit /\ l = 1
TNext ==
  /\ l <= Len(Log) /\ l' = l + 1
  /\ CASE E.o = "Cfg" -> ix' = <<>>
       [] E.o = "New" -> New(E.h, E.k)
       [] E.o = "Ed" -> Edit(E.h, E.op, E.t, E.d)
       [] E.o = "PEd" -> PEdit(E.h, E.g, E.op, E.t, E.d)
       [] E.o = "Drv" -> Derive(E.h, E.g, E.k)
       [] E.o = "Del" -> Del(E.h)
       [] E.o = "Dump" -> DumpOK = TRUE /\ Same
       [] E.o = "Look" -> LookOK = TRUE /\ Same
       [] E.o = "Own" -> OwnOK = TRUE /\ Same
       [] E.o = "View" -> ViewOK = TRUE /\ Same
       [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_tvars
Show == IF "AT" \in DOMAIN IOEnv /\ ToString(l) = IOEnv.AT THEN PrintT(<<"STATE", ix>>) ELSE TRUE
Accepted ==
  LET d == TLCGet("stats").diameter
  IN PrintT(<<"MATCHED", d - 1, Len(Log)>>) /\ d - 1 = Len(Log)
=============================================================================
