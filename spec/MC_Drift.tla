------------------------------ MODULE MC_Drift ------------------------------
(***************************************************************************)
(* Exhaustive: three particles on a line with every small displacement     *)
(* history, every framework and every common motion.  The correction is    *)
(* invariant under the common motion, leaves the framework average at      *)
(* rest, and does nothing without a framework.  Histories are printed as   *)
(* scenarios for the real base parser.                                     *)
(***************************************************************************)
EXTENDS Pipeline, Json
CONSTANTS NP, T, D
VARIABLES hist, mob, frw
All == 1..NP
Vec(x) == <<x, -x, 2 * x>>
Hist == [All -> [1..T -> -D..D]]
Init == /\ hist \in Hist /\ mob = {} /\ frw = {}
        /\ stage = "none" /\ inp = <<>> /\ tracks = <<>> /\ carts = <<>> /\ cells = <<>> /\ rows = <<>>
Next == /\ mob = {} /\ mob' \in (SUBSET All \ {{}}) /\ frw' \in SUBSET All
        /\ UNCHANGED <<hist, pvars>>
Asc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
RowsOf(h, S) == MapS(Asc(S), LAMBDA a : [t \in 1..T |-> Vec(h[a][t])])
Shift(h, m) == [a \in All |-> [t \in 1..T |-> h[a][t] + m[t]]]
Same(x, y) == Len(x) = Len(y) /\ \A a \in 1..Len(x) : \A t \in 1..T : VClose(x[a][t], y[a][t], 0, 0)
GalileanInvariant ==
  frw # {} => \A m \in [1..T -> {-1, 1}] :
     Same(Corrected(RowsOf(hist, mob), RowsOf(hist, frw)),
          Corrected(RowsOf(Shift(hist, m), mob), RowsOf(Shift(hist, m), frw)))
FrameworkAtRest ==
  frw # {} => LET f == RowsOf(hist, frw) r == Corrected(f, f)
              IN \A t \in 1..T : EqR(SumR([a \in 1..Len(r) |-> r[a][t][1]]), 0)
NoFrameworkNoChange == (frw = {} /\ mob # {}) => Same(Corrected(RowsOf(hist, mob), <<>>), RowsOf(hist, mob))
Emit == (mob # {} /\ hist[1][1] = 1 /\ hist[1][2] = 0) => PrintT(ToJson(<<"SCEN", [a \in 1..NP |-> hist[a]], Asc(mob), Asc(frw)>>))
=============================================================================
