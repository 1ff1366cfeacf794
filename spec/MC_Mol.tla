------------------------------- MODULE MC_Mol -------------------------------
(***************************************************************************)
(* Exhaustive: a molecule of two or three atoms on a ring, narrower than   *)
(* half the ring, at every position, with every small mass ratio.  The     *)
(* centre of Pipeline.tla is the mass-weighted centre of the unwrapped     *)
(* molecule wherever the boundary cuts it, whichever atom comes first, and *)
(* moves exactly with the molecule.  Each move is printed as a scenario.   *)
(***************************************************************************)
EXTENDS Pipeline, Json
CONSTANTS Ring, Span, Masses
VARIABLES offs, wt, at, to
Zero == stage = "none" /\ inp = <<>> /\ tracks = <<>> /\ carts = <<>> /\ cells = <<>> /\ rows = <<>>
Init == /\ offs \in UNION {{<<0>> \o s : s \in [1..k -> 0..Span]} : k \in 1..2}
        /\ wt \in [1..Len(offs) -> Masses]
        /\ at = -1 /\ to = -1 /\ Zero
Next == /\ at = -1 /\ at' \in 0..(Ring - 1) /\ \E d \in -Span..Span : to' = at' + d
        /\ UNCHANGED <<offs, wt, pvars>>
Frac(x) == Div(x % Ring, Ring)
FrameAt(o, x) == [s |-> [i \in 1..Len(o) |-> <<Frac(x + o[i]), Frac(x), 0>>]]
CaseOf(w) == [wrapf |-> FALSE, species |-> [i \in 1..Len(w) |-> "X"], subA |-> 1, massgiven |-> TRUE, masses |-> w,
              mols |-> <<[i \in 1..Len(w) |-> i]>>]
Cen(o, w, x) == Centre(CaseOf(w), FrameAt(o, x), [i \in 1..Len(o) |-> i])[1]
TrueCentre(x) == Div(Add(x, Div(DotR(wt, offs), SumR(wt))), Ring)
IsInt(r) == EqR(r, FloorR(r))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Weighted == at # -1 => IsInt(Sub(Cen(offs, wt, at), TrueCentre(at)))
AnyOrder == at # -1 => IsInt(Sub(Cen(offs, wt, at), Cen(Rev(offs), Rev(wt), at)))
MovesAlong == at # -1 => EqR(MinImg1(Sub(Cen(offs, wt, to), Cen(offs, wt, at))), Div(to - at, Ring))
Emit == at # -1 => PrintT(ToJson(<<"SCEN", offs, wt, at, to>>))
=============================================================================
