------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Resampling until normal.  The environment decides the p-value of the    *)
(* normality test each time it is made (pv[j] for the j-th test).          *)
(***************************************************************************)
EXTENDS Estim
VARIABLES have, tests, rstate       \* values drawn, tests made, "run" | "end"
Batch == 100
RInit(n0) == have = n0 /\ tests = 1 /\ rstate = "run"
Rejected(p, alpha) == Lt(p, alpha)       \* not (yet) normal
More(p, alpha, cap) ==
  /\ rstate = "run" /\ Rejected(p, alpha) /\ have < cap
  /\ have' = have + Batch /\ tests' = tests + 1 /\ rstate' = "run"
Stop(p, alpha, cap) ==
  /\ rstate = "run" /\ ~(Rejected(p, alpha) /\ have < cap)
  /\ rstate' = "end" /\ UNCHANGED <<have, tests>>
=============================================================================
