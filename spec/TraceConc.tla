------------------------------ MODULE TraceConc -----------------------------
(***************************************************************************)
(* Recorded behaviours of several threads on trees that share structure:    *)
(* the calls must be behaviours of BppTree - each thread's as if it were    *)
(* alone - and the memory accesses, atomic operations, allocations and      *)
(* releases in between must be behaviours of BppMem.  At the end, when all   *)
(* trees are gone, no block is left.                                        *)
(***************************************************************************)
EXTENDS Trace, BppMem
VARIABLE mem
cvars == <<tvars, mem>>

NoMem == Start({0}, 0, {})
Quiet == UNCHANGED <<vars, hist>>
Cells(s) == {s[i] : i \in 1..Len(s)}

MFork ==
  /\ IsEvent("Fork") /\ Quiet
  /\ mem' = Start(0..(E.n - 1), 0, Cells(E.b))
MJoin == IsEvent("Join") /\ Quiet /\ mem' = JoinAll(mem, 0)
\* a list of distinct blocks with the cells read and written
Touched(bs) == [b \in {bs[i][1][1] : i \in 1..Len(bs)} |->
                  LET i == CHOOSE j \in 1..Len(bs) : bs[j][1][1] = b
                  IN [r |-> Cells(bs[i][2]), w |-> Cells(bs[i][3])]]
MAccess ==
  /\ IsEvent("Acc") /\ Quiet
  /\ LET a == TLCEval(Touched(E.b)) IN
     /\ (\A b \in DOMAIN a : CanAccess(mem, E.t, b, a[b].r, a[b].w, {}, {})) = TRUE
     /\ mem' = AccessMany(mem, E.t, a)
Kind == <<"load", "store", "rmw">>
MAtomic ==
  /\ IsEvent("At") /\ Quiet
  /\ IF E.k = 3 THEN mem' = Fence(mem, E.t, E.acq = 1, E.rel = 1)
     ELSE /\ CanAtomic(mem, E.t, E.b, E.c, Kind[E.k + 1]) = TRUE
          /\ mem' = Atomic(mem, E.t, E.b, E.c, Kind[E.k + 1], E.acq = 1, E.rel = 1)
MAlloc == IsEvent("Al") /\ Quiet /\ CanAlloc(mem, E.b) /\ mem' = Alloc(mem, E.b)
MFree == IsEvent("Fr") /\ Quiet /\ CanFree(mem, E.t, E.b) = TRUE /\ mem' = Free(mem, E.t, E.b)
MDone == IsEvent("Done") /\ Quiet /\ DOMAIN mem.blk \subseteq {0} /\ mem' = NoMem

CInit == TInit /\ mem = NoMem
CNext == \/ TNext /\ UNCHANGED mem
         \/ MFork \/ MJoin \/ MAccess \/ MAtomic \/ MAlloc \/ MFree \/ MDone
CSpec == CInit /\ [][CNext]_cvars
ShowC == IF "AT" \in DOMAIN IOEnv /\ ToString(l) = IOEnv.AT THEN PrintT(<<"STATE", forest, mem>>) ELSE TRUE
=============================================================================
