------------------------------ MODULE MC_Estim ------------------------------
(***************************************************************************)
(* Exhaustive over tiny data: two atoms, two or three observations, unit   *)
(* steps along the axes.  Laws that the definitions must obey: axes add    *)
(* up, charge one is the total displacement, charges scale with their      *)
(* square, opposite charges cancel common motion, the order of the atoms   *)
(* does not matter, variances are not negative, blocking keeps the mean of *)
(* the blocks it uses.  The data are printed as scenarios.                 *)
(***************************************************************************)
EXTENDS Estim, Json
CONSTANTS NObs
VARIABLES A, q
Dirs == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, -1, 0>>, <<1, 0, 2>>, <<-1, 1, 0>>}
Init == A \in [1..2 -> [1..NObs -> Dirs]] /\ q = <<>>
Next == q = <<>> /\ q' \in {<<1, 1>>, <<1, -1>>, <<2, 2>>, <<0, 3>>} /\ UNCHANGED A
Dat(kind, dim, ch) == [kind |-> kind, dim |-> dim, sub |-> 1, block |-> FALSE, charge |-> ch, dts |-> <<1, 2>>, nos |-> <<4, 2>>,
                       D |-> <<A, A>>, boot |-> FALSE]
Mean(kind, dim, ch) == MeanR(Values(Dat(kind, dim, ch), A))
On == q # <<>>
AxesAddUp == On => \A kind \in {"msd", "mscd"} :
   EqR(Mean(kind, "xyz", q), SumR(<<Mean(kind, "x", q), Mean(kind, "Y", q), Mean(kind, "z", q)>>))
PlanesAddUp == On => EqR(Mul(2, Mean("msd", "xyz", q)), SumR(<<Mean("msd", "xy", q), Mean("msd", "xz", q), Mean("msd", "yz", q)>>))
UnitCharge == q = <<1, 1>> => EqR(Mean("mscd", "xy", q), Mean("mstd", "xy", q))
Scaling == q = <<2, 2>> => EqR(Mean("mscd", "xyz", q), Mul(4, Mean("mstd", "xyz", q)))
Opposite == (q = <<1, -1>> /\ A[1] = A[2]) => EqR(Mean("mscd", "xyz", q), 0)
OneCharge == q = <<0, 3>> => EqR(Mean("mscd", "xyz", q), Mul(9, MeanR([o \in 1..NObs |-> SqLen(A[2][o], <<1, 2, 3>>)])))
Swap == <<A[2], A[1]>>
Order == On => /\ EqR(MeanR(Squares(A, <<1, 2, 3>>)), MeanR(Squares(Swap, <<1, 2, 3>>)))
               /\ Collective(A, <<1, 3>>, q) = Collective(Swap, <<1, 3>>, <<q[2], q[1]>>)
Variances == On => /\ Leq(0, VarR(Squares(A, <<1, 2>>)))
                   /\ LET x == Squares(A, <<1, 2, 3>>) lv == Levels(x) IN EqR(lv[1].mean, MeanR(x)) /\ \A i \in 1..Len(lv) : Leq(0, lv[i].se2)
Half == On => Len(Reported(Dat("mscd", "xyz", q))) = 1 /\ Len(Reported(Dat("msd", "xyz", q))) = 2
Emit == On => PrintT(ToJson(<<"SCEN", A, q>>))
=============================================================================
