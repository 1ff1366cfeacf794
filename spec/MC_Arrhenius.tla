---------------------------- MODULE MC_Arrhenius ----------------------------
(***************************************************************************)
(* The exponential obeys its functional equation and known values, the     *)
(* laws increase with temperature, agree when T0 = 0, scale with the       *)
(* prefactor; bounds of a construction do not depend on other ones.        *)
(***************************************************************************)
EXTENDS Arrhenius
CONSTANTS Energies, Temps
VARIABLES e, t
Init == e \in Energies /\ t = 0
Next == t = 0 /\ t' \in Temps /\ UNCHANGED e
On == t # 0
E == Div(e, 100)
FunctionalEq == On => LET x == Div(e, 7) y == Div(t, 13) IN Close(ExpR(Add(x, Neg(y))), Mul(ExpR(x), ExpR(Neg(y))), "1e-25", 0)
Known == /\ Close(ExpR(1), "2.718281828459045235360287471352662498", "1e-30", 0)
         /\ Close(ExpR(Neg(100)), "3.7200759760208359629596958038631183373588922923768e-44", "1e-27", 0)
         /\ Close(ExpR(Neg("0.5")), "0.60653065971263342360379953499118045344191813548718695568289", "1e-30", 0)
Increasing == (On /\ e > 0) => Lt(Law("std", t, <<E, 3>>), Law("std", t + 1, <<E, 3>>))
Agree == On => EqR(Law("std", t, <<E, 3>>), Law("sup", t, <<E, 3, 0>>))
Shift == On => EqR(Law("std", t, <<E, 3>>), Law("sup", t + 40, <<E, 3, 40>>))
Scale == On => EqR(Mul(2, Law("std", t, <<E, 3>>)), Law("std", t, <<E, 6>>))
OwnBounds == On => /\ Bounds("sup", FALSE, <<>>, <<t, t + 5>>)[3] = <<0, t>>
                   /\ Bounds("sup", TRUE, <<<<0, "2">>, <<1, "3">>, <<1, "open">>>>, <<t, 1>>) = <<<<0, "2">>, <<1, "3">>, <<1, t>>>>
                   /\ Bounds("std", FALSE, <<>>, <<t>>) = <<<<0, "1">>, <<0, "1e20">>>>
=============================================================================
