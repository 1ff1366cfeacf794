---------------------------- MODULE MC_Intervals ----------------------------
(***************************************************************************)
(* Exhaustive over small trajectory lengths and all interval settings: the *)
(* intervals that Pipeline.tla allows are strictly increasing, start and   *)
(* end where requested, are unique and complete; the windows at each       *)
(* interval cover every pair of frames that far apart exactly once; the    *)
(* observation counts obey their bounds.  Every setting is printed as a    *)
(* scenario for the real parser.                                           *)
(* Times are in units of half a step, so that bounds between steps occur.  *)
(***************************************************************************)
EXTENDS Pipeline, Json
CONSTANTS MaxN
VARIABLES rowsN, set
Settings == [mins : {-1} \cup (0..(2 * MaxN)), maxs : {-1} \cup (2..(2 * MaxN)), nst : 1..(MaxN + 1),
             spc : {"linear", "logarithmic"}]
Init == /\ rowsN \in 1..MaxN /\ set = [spc |-> "none"]
        /\ stage = "none" /\ inp = <<>> /\ tracks = <<>> /\ carts = <<>> /\ cells = <<>> /\ rows = <<>>
Choose == /\ set = [spc |-> "none"] /\ set' \in Settings
          /\ set'.maxs <= 2 * rowsN /\ set'.mins <= 2 * rowsN + 2
          /\ (set'.maxs # -1 => set'.mins <= set'.maxs)
          /\ UNCHANGED <<rowsN, pvars>>
Next == Choose
Half(x) == Div(x, 2)
C == [minset |-> set.mins # -1, mindt |-> Half(set.mins), maxset |-> set.maxs # -1, maxdt |-> Half(set.maxs),
      nsteps |-> set.nst, spacing |-> set.spc, ts |-> 1, skip |-> 1, subT |-> 1, sampling |-> "multi-origin"]
Ivs == SetToSortSeq(IdealIntervals(C, rowsN), LAMBDA a, b : a < b)
Valid == set.spc # "none" /\ ~IntervalError(C, rowsN)
Consistent == Valid => \A x \in {IntervalClauses(C, rowsN, Ivs)[i] : i \in 1..6} : x[2]
InRange == Valid => \A i \in 1..Len(Ivs) : Ivs[i] >= 1 /\ Ivs[i] <= rowsN
CompleteByDefault == (Valid /\ set.nst > rowsN /\ set.spc = "linear" /\ set.maxs = -1)
                        => Len(Ivs) = rowsN - KMin(C) + 1
(* o-th window at interval k runs from row o-1 to row o-1+k *)
Pairs(k) == {<<o - 1, o - 1 + k>> : o \in 1..NObs(C, rowsN, k)}
EveryPairOnce == Valid => \A i \in 1..Len(Ivs) :
   LET k == Ivs[i] IN /\ Cardinality(Pairs(k)) = NObs(C, rowsN, k)
                      /\ Pairs(k) = {<<a, b>> \in (0..rowsN) \X (0..rowsN) : b - a = k}
CountsBounded == Valid => \A i \in 1..Len(Ivs) : \A N \in 1..2 :
   LET k == Ivs[i] v == NIndep(C, rowsN, N, k) IN
   /\ Leq(N, v)                                        \* at least one window per atom
   /\ Leq(v, N * CeilDiv(rowsN, k))                    \* at most the non-overlapping windows, rounded up
   /\ Leq(v, N * NObs(C, rowsN, k))                    \* and never more than there are observations
   /\ (i > 1 => Lt(v, NIndep(C, rowsN, N, Ivs[i - 1])))
Emit == set.spc # "none" => PrintT(ToJson(<<"SCEN", rowsN, set.mins, set.maxs, set.nst, set.spc>>))
=============================================================================
