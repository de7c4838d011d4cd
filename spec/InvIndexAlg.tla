----------------------------- MODULE InvIndexAlg ----------------------------
(***************************************************************************)
(* The algorithm of the example, on the two sequences it keeps: looking the *)
(* term up, inserting it with no documents, locating its documents by the   *)
(* running sum, inserting the document, counting it.  Checked to refine     *)
(* InvIndex at the points between calls.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS AllTerms, AllDocs, MaxTerms
VARIABLES ts,       \* sequence of <<term, count>>
          ds,       \* sequence of documents
          abs,      \* what the index stands for: term -> set of documents
          pc, t, d, it, lo, hi
vars == <<ts, ds, abs, pc, t, d, it, lo, hi>>

Init == ts = <<>> /\ ds = <<>> /\ abs = <<>> /\ pc = "idle" /\ t = 0 /\ d = 0 /\ it = 0 /\ lo = 0 /\ hi = 0
LowerTerm(x) == Cardinality({j \in DOMAIN ts : ts[j][1] < x})
SumInclusive(p) == FoldLeft(LAMBDA a, e : a + e[2], 0, SubSeq(ts, 1, p + 1))
Call == pc = "idle" /\ \E x \in AllTerms, y \in AllDocs :
          /\ t' = x /\ d' = y /\ pc' = "seek" /\ UNCHANGED <<ts, ds, abs, it, lo, hi>>
Seek ==
  /\ pc = "seek" /\ it' = LowerTerm(t)
  /\ IF it' = Len(ts) \/ ts[it' + 1][1] # t
     THEN Len(ts) < MaxTerms /\ ts' = InsertAt(ts, it' + 1, <<t, 0>>) ELSE UNCHANGED ts
  /\ pc' = "range" /\ UNCHANGED <<ds, abs, t, d, lo, hi>>
Locate ==
  /\ pc = "range" /\ hi' = SumInclusive(it) /\ lo' = hi' - ts[it + 1][2]
  /\ pc' = "doc" /\ UNCHANGED <<ts, ds, abs, t, d, it>>
Doc ==
  /\ pc = "doc"
  /\ LET p == lo + Cardinality({j \in lo + 1..hi : ds[j] < d}) IN
     IF p = hi \/ ds[p + 1] # d
     THEN ds' = InsertAt(ds, p + 1, d) /\ pc' = "count" /\ abs' = abs
     ELSE pc' = "done" /\ UNCHANGED <<ds, abs>>
  /\ UNCHANGED <<ts, t, d, it, lo, hi>>
Count ==
  /\ pc = "count" /\ ts' = [ts EXCEPT ![it + 1][2] = @ + 1] /\ pc' = "done"
  /\ UNCHANGED <<ds, abs, t, d, it, lo, hi>>
Done ==
  /\ pc = "done" /\ pc' = "idle"
  /\ abs' = IF t \in DOMAIN abs THEN [abs EXCEPT ![t] = @ \cup {d}] ELSE abs @@ (t :> {d})
  /\ t' = 0 /\ d' = 0 /\ it' = 0 /\ lo' = 0 /\ hi' = 0 /\ UNCHANGED <<ts, ds>>
Next == Call \/ Seek \/ Locate \/ Doc \/ Count \/ Done
Spec == Init /\ [][Next]_vars

I == INSTANCE InvIndex WITH ix <- (1 :> [k |-> "T", m |-> abs])
Represents ==
  pc = "idle" =>
    /\ ts = [j \in 1..Cardinality(DOMAIN abs) |-> <<I!TermSeq(abs)[j], I!Counts(abs)[j]>>]
    /\ ds = I!Docs(abs)
    /\ I!Faithful
=============================================================================
