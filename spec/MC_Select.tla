----------------------------- MODULE MC_Select -----------------------------
(***************************************************************************)
(* Exhaustive over small systems: every sequence of species, every atom    *)
(* sub-sampling, every request by name(s) or by indices, every framework   *)
(* choice.  The selection of Pipeline.tla is what was asked for, once      *)
(* each, in file order (by name) or in the given order (by index); without *)
(* a list the framework is exactly the rest; an absent species is an       *)
(* error.  Requests are printed as scenarios for the real readers.         *)
(***************************************************************************)
EXTENDS Pipeline, Json
CONSTANTS Names, MaxAtoms, EmitMax
VARIABLES sp, req
Base == [kind |-> "frames", species |-> sp, mols |-> <<>>, massgiven |-> FALSE, masses |-> <<>>]
Init == /\ sp = <<>> /\ req = <<>>
        /\ stage = "none" /\ inp = <<>> /\ tracks = <<>> /\ carts = <<>> /\ cells = <<>> /\ rows = <<>>
Grow == /\ req = <<>> /\ Len(sp) < MaxAtoms
        /\ \E x \in Names : sp' = Append(sp, x)
        /\ UNCHANGED <<req, pvars>>
Requests ==
  {[mode |-> "specie", names |-> SetToSeq(S), idx |-> <<>>] : S \in (SUBSET Names) \ {{}}}
  \cup {[mode |-> "index", names |-> <<>>, idx |-> q] :
           q \in UNION {{s \in [1..k -> 0..(Len(sp) - 1)] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..2}}
Frameworks == {[given |-> FALSE, fw |-> <<>>], [given |-> TRUE, fw |-> <<>>]}
              \cup {[given |-> TRUE, fw |-> <<i>>] : i \in 0..(Len(sp) - 1)}
              \cup {[given |-> TRUE, fw |-> <<Len(sp) - 1, 0>>]}
Ask == /\ req = <<>> /\ Len(sp) >= 1
       /\ \E r \in Requests, f \in Frameworks, k \in 1..3 :
            /\ (r.mode = "index" => k = 1)
            /\ (f.given => k = 1)
            /\ req' = <<[mode |-> r.mode, names |-> r.names, idx |-> r.idx, fwgiven |-> f.given, fw |-> f.fw, subA |-> k]>>
       /\ UNCHANGED <<sp, pvars>>
Next == Grow \/ Ask
C == Base @@ req[1]
Asked == req # <<>>
Rng(s) == {s[i] : i \in 1..Len(s)}
Fine == Asked /\ ~SelectionError(C)
OnceEach == Fine => \A i, j \in 1..Len(Mobile(C)) : i # j => Mobile(C)[i] # Mobile(C)[j]
ExactlyAsked == (Fine /\ req[1].mode = "specie") =>
   /\ \A i \in 1..NAtoms(C) : (i \in Rng(Mobile(C))) <=> (NameOf(C, i) \in Rng(req[1].names))
   /\ \A i \in 1..(Len(Mobile(C)) - 1) : Mobile(C)[i] < Mobile(C)[i + 1]
AsGiven == (Fine /\ req[1].mode = "index") => Mobile(C) = [i \in 1..Len(req[1].idx) |-> req[1].idx[i] + 1]
Complement == (Fine /\ ~req[1].fwgiven) =>
   /\ Rng(Mobile(C)) \cap Rng(FrameworkAtoms(C)) = {}
   /\ Rng(Mobile(C)) \cup Rng(FrameworkAtoms(C)) = 1..NAtoms(C)
SubSampled == Asked => \A i \in 1..NAtoms(C) : AtomIds(C)[i] = 1 + (i - 1) * req[1].subA
AbsentIsError == (Asked /\ req[1].mode = "specie")
   => (SelectionError(C) <=> ~\E i \in 1..NAtoms(C) : NameOf(C, i) \in Rng(req[1].names))
Emit == (Asked /\ Len(sp) <= EmitMax) =>
   PrintT(ToJson(<<"SCEN", sp, req[1].mode, req[1].names, req[1].idx, req[1].fwgiven, req[1].fw, req[1].subA>>))
=============================================================================
