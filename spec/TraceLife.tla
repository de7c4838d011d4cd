------------------------------ MODULE TraceLife -----------------------------
(***************************************************************************)
(* Accepts exactly the recorded sequences of object and block operations in *)
(* which every object is used only while it lives and none is left behind.  *)
(***************************************************************************)
EXTENDS Life, Json, IOUtils, TLCExt
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<lvars, l>>
E == Log[l]
TInit == LifeInit /\ l = 1
TNext ==
  /\ l <= Len(Log) /\ l' = l + 1
  /\ CASE E.o = "Life" -> Step(E.l)
       [] E.o = "End" -> AllGone /\ E.lb = 0 /\ UNCHANGED lvars
       [] E.o \in {"Crash", "Hang"} -> FALSE
       [] OTHER -> UNCHANGED lvars
TSpec == TInit /\ [][TNext]_tvars
\* what went wrong, for reports; always true
Show ==
  IF "AT" \in DOMAIN IOEnv /\ ToString(l) = IOEnv.AT
  THEN PrintT(<<"STATE", IF E.o = "Life" THEN LET b == FoldLeft(Do, State, E.l).bad IN <<IF b = <<>> THEN "" ELSE Kind(b), b>> ELSE <<>>,
                "whole", whole, "moved", moved, "blocks", blocks>>)
  ELSE TRUE
Accepted ==
  LET d == TLCGet("stats").diameter
  IN PrintT(<<"MATCHED", d - 1, Len(Log)>>) /\ d - 1 = Len(Log)
=============================================================================
