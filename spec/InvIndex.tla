------------------------------ MODULE InvIndex ------------------------------
(***************************************************************************)
(* Inverted indices: two trees edited together (examples/inverted_index.hpp *)
(* of the library).  What a user relies on is the map from terms to sets of *)
(* documents, `ix'.  What the library stores is a sequence of <<term,       *)
(* number of documents>> in term order, whose running sums say where in a   *)
(* second sequence the documents of each term are; Terms and Docs derive    *)
(* these two from `ix'.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

VARIABLES ix    \* handle -> [k |-> "T" (mutable) or "P", m |-> term -> non-empty set of documents]
Handles == DOMAIN ix

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
TermSeq(m) == Sorted(DOMAIN m)
Counts(m) == LET ts == TermSeq(m) IN [j \in 1..Len(ts) |-> Cardinality(m[ts[j]])]
Docs(m) == FoldLeft(LAMBDA acc, t : acc \o Sorted(m[t]), <<>>, TermSeq(m))
\* number of documents of all terms before t, and up to and including t
Before(m, t) == FoldLeft(LAMBDA acc, u : IF u < t THEN acc + Cardinality(m[u]) ELSE acc, 0, TermSeq(m))
UpTo(m, t) == FoldLeft(LAMBDA acc, u : IF u <= t THEN acc + Cardinality(m[u]) ELSE acc, 0, TermSeq(m))
\* the term that document position p (0-based) belongs to
OwnerOf(m, p) == CHOOSE t \in DOMAIN m : Before(m, t) <= p /\ p < UpTo(m, t)

Added(m, t, d) == IF t \in DOMAIN m THEN [m EXCEPT ![t] = @ \cup {d}] ELSE m @@ (t :> {d})
Removed(m, t, d) ==
  IF t \notin DOMAIN m \/ d \notin m[t] THEN m
  ELSE IF m[t] = {d} THEN Restrict(m, DOMAIN m \ {t}) ELSE [m EXCEPT ![t] = @ \ {d}]
Dropped(m, t) == Restrict(m, DOMAIN m \ {t})
Changed(op, m, t, d) ==
  CASE op = "add" -> Added(m, t, d) [] op = "rem" -> Removed(m, t, d) [] op = "drop" -> Dropped(m, t)

Put(h, x) == IF h \in Handles THEN [ix EXCEPT ![h] = x] ELSE ix @@ (h :> x)
IxInit == ix = <<>>
New(h, k) == ix' = Put(h, [k |-> k, m |-> <<>>])
Edit(h, op, t, d) == h \in Handles /\ ix[h].k = "T" /\ ix' = [ix EXCEPT ![h].m = Changed(op, @, t, d)]
\* an edit of an immutable index yields another one (possibly under the same handle)
PEdit(h, g, op, t, d) == h \in Handles /\ ix[h].k = "P" /\ ix' = Put(g, [k |-> "P", m |-> Changed(op, ix[h].m, t, d)])
Derive(h, g, k) == h \in Handles /\ g # h /\ ix' = Put(g, [k |-> k, m |-> ix[h].m])
Del(h) == h \in Handles /\ ix' = Restrict(ix, Handles \ {h})

\* immutable versions never change while they live, and an edit changes one index only
Versions == [][\A h \in Handles \cap DOMAIN ix' :
                 (ix[h].k = "P" /\ ix'[h] # ix[h]) => \A g \in Handles \ {h} : g \in DOMAIN ix' /\ ix'[g] = ix[g]]_ix
\* the derived sequences describe the map
Faithful ==
  \A h \in Handles :
    LET m == ix[h].m  ts == TermSeq(m)  cs == Counts(m)  ds == Docs(m) IN
    /\ Len(ds) = FoldLeft(LAMBDA a, c : a + c, 0, cs)
    /\ \A t \in DOMAIN m : /\ m[t] # {}
                           /\ {ds[p] : p \in Before(m, t) + 1..UpTo(m, t)} = m[t]
    /\ \A p \in 0..Len(ds) - 1 : ds[p + 1] \in m[OwnerOf(m, p)]
=============================================================================
