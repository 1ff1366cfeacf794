----------------------------- MODULE MC_Unwrap -----------------------------
(***************************************************************************)
(* Exhaustive: a particle on a ring of Len sites makes every possible      *)
(* sequence of steps shorter than half the ring; what is recorded is any   *)
(* periodic image of its site.  The unwrapping of Pipeline.tla recovers    *)
(* the true path from the record - and, in a cell that changes, the sum of *)
(* the nearest-image steps.  Every complete record is printed as a         *)
(* scenario for the real code (one axis of one atom each).                 *)
(***************************************************************************)
EXTENDS Pipeline, Json
CONSTANTS Sizes, T, Images
Imgs3 == {-1, 0, 2}
VARIABLES size, true, rec
uvars == <<size, true, rec>>
DiagL(n) == <<<<n, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Init == /\ size \in Sizes
        /\ \E x \in 0..(size - 1), m \in Images : true = <<x>> /\ rec = <<x + m * size>>
        /\ stage = "none" /\ inp = <<>> /\ tracks = <<>> /\ carts = <<>> /\ cells = <<>> /\ rows = <<>>
Move(d, m) == LET x == true[Len(true)] + d IN
              /\ Len(true) < T
              /\ true' = Append(true, x)
              /\ rec' = Append(rec, (x % size) + m * size)
              /\ UNCHANGED <<size, pvars>>
Next == \E d \in -size..size, m \in Images : 2 * d < size /\ 2 * d > -size /\ Move(d, m)
Cells == [t \in 1..Len(rec) |-> DiagL(size)]
Carts == [t \in 1..Len(rec) |-> <<rec[t], 0, 0>>]
Unwrapped == IF Len(rec) = 1 THEN <<>> ELSE Cumulate(Steps(Carts, Cells, MapS(Cells, LAMBDA L : Inv3(L))))
Recovered == LET u == Unwrapped IN \A t \in 1..(Len(rec) - 1) : EqR(u[t][1], true[t + 1] - true[1])
(* the winding of the path is not visible in the record, only in the sum    *)
Emit == (Len(rec) = T /\ \A t \in 1..T : rec[t] >= 0 /\ rec[t] < size) =>
          PrintT(ToJson(<<"SCEN", size, rec, [t \in 1..T |-> true[t] - true[1]]>>))
Spec == Init /\ [][Next]_<<uvars, pvars>>
=============================================================================
