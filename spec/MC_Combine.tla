----------------------------- MODULE MC_Combine -----------------------------
(***************************************************************************)
(* Several trajectories.  Consecutive: however a trajectory is cut, the    *)
(* concatenation is the trajectory.  Identical: the atoms of all replicas  *)
(* side by side; counts add up, and no estimate depends on the order of    *)
(* the replicas.  Exhaustive over all cuts of short trajectories and all   *)
(* small replicas.                                                         *)
(***************************************************************************)
EXTENDS Estim, Json
CONSTANTS T, NRep
VARIABLES whole, parts, reps
Dirs == {<<1, 0, 0>>, <<0, -1, 2>>, <<0, 0, 0>>}
Init == whole = <<>> /\ parts = <<>> /\ reps = <<>>
Read == Len(whole) < T /\ reps = <<>> /\ whole' = Append(whole, Len(whole) + 1) /\ UNCHANGED reps
        /\ \/ parts' = Append(parts, <<Len(whole) + 1>>)                       \* a new part begins here
           \/ Len(parts) > 0 /\ parts' = [parts EXCEPT ![Len(parts)] = Append(@, Len(whole) + 1)]
Replica == whole = <<>> /\ Len(reps) < NRep /\ \E x \in [1..2 -> Dirs] : reps' = Append(reps, x)     \* one atom, two observations
           /\ UNCHANGED <<whole, parts>>
Next == Read \/ Replica
Concat(ps) == FoldLeft(LAMBDA acc, p : acc \o p, <<>>, ps)
Whole == Concat(parts) = whole
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ds(rs) == [kind |-> "msd", dim |-> "xyz", sub |-> 1, block |-> FALSE, charge |-> <<>>, dts |-> <<1>>, nos |-> <<2 * Len(rs)>>, D |-> <<rs>>]
Same(d1, d2) == LET e1 == Estimate(d1, 1) e2 == Estimate(d2, 1) IN
   EqR(e1.n, e2.n) /\ EqR(e1.v, e2.v)
NoStill == \E r \in 1..Len(reps) : \E o \in 1..2 : reps[r][o] # <<0, 0, 0>>
OrderFree == (Len(reps) > 0 /\ NoStill) => /\ Same(Ds(reps), Ds(Rev(reps)))
                              /\ Same([Ds(reps) EXCEPT !.kind = "mstd"], [Ds(Rev(reps)) EXCEPT !.kind = "mstd"])
=============================================================================
