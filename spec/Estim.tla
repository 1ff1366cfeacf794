------------------------------- MODULE Estim -------------------------------
(***************************************************************************)
(* Estimates from displacement observations.                               *)
(*                                                                         *)
(* Data `d' is a record:                                                   *)
(*   kind    "msd" | "mstd" | "mscd"                                       *)
(*   dim     the axes, any of x, y, z, xy, xz, yz, xyz in either case      *)
(*   sub     interval sub-sampling                                         *)
(*   block   blocking analysis requested                                   *)
(*   charge  sequence of charges, one per atom (mscd)                      *)
(*   dts, nos, D   per interval: time, number of independent observations, *)
(*           displacement vectors D[i][atom][observation]                  *)
(*                                                                         *)
(* The machine walks over the intervals that are used and appends one      *)
(* estimate per interval, so that the i-th entry of everything reported    *)
(* belongs to the i-th of them.                                            *)
(***************************************************************************)
EXTENDS KNum

Axes(dim) ==
  CASE dim \in {"x", "X"} -> <<1>> [] dim \in {"y", "Y"} -> <<2>> [] dim \in {"z", "Z"} -> <<3>>
    [] dim \in {"xy", "XY", "Xy", "xY"} -> <<1, 2>> [] dim \in {"xz", "XZ", "Xz", "xZ"} -> <<1, 3>>
    [] dim \in {"yz", "YZ", "Yz", "yZ"} -> <<2, 3>> [] OTHER -> <<1, 2, 3>>

\* the intervals in use: every sub-th; collective quantities use the first half; at least two values are needed
UsedIntervals(d) == Every([i \in 1..Len(d.D) |-> i], d.sub)
NAtomsIn(A) == Len(A)
NObsIn(A) == Len(A[1])
Flat(A) == \* all displacements, atom by atom
  FoldLeft(LAMBDA acc, x : acc \o x, <<>>, A)
SqLen(v, ax) == SumR(MapS(ax, LAMBDA k : Mul(v[k], v[k])))
Squares(A, ax) == MapS(Flat(A), LAMBDA v : SqLen(v, ax))
\* squared length of the weighted sum over atoms, per observation
Collective(A, ax, q) ==
  Tup(NObsIn(A), LAMBDA o : SumR(MapS(ax, LAMBDA k :
     LET t == SumR(Tup(NAtomsIn(A), LAMBDA a : Mul(q[a], A[a][o][k]))) IN Mul(t, t))))
Ones(m) == [i \in 1..m |-> 1]
Values(d, A) ==
  CASE d.kind = "msd" -> Squares(A, Axes(d.dim))
    [] d.kind = "mstd" -> Collective(A, Axes(d.dim), Ones(NAtomsIn(A)))
    [] OTHER -> Collective(A, Axes(d.dim), d.charge)
Candidates(d) == LET u == UsedIntervals(d) IN IF d.kind = "msd" THEN u ELSE SubSeq(u, 1, Len(u) \div 2)
NValues(d, A) == IF d.kind = "msd" THEN NAtomsIn(A) * NObsIn(A) ELSE NObsIn(A)
Reported(d) == SelectSeq(Candidates(d), LAMBDA i : NValues(d, d.D[i]) > 1)

\* independent observations behind one estimate (of the whole system for collective quantities)
NSys(d, i) == IF d.kind = "msd" THEN d.nos[i] ELSE Div(d.nos[i], NAtomsIn(d.D[i]))

\* blocking analysis (Flyvbjerg and Petersen): average neighbouring pairs while two values are left
PairUp(x) == Tup(Len(x) \div 2, LAMBDA i : Div(Add(x[2 * i - 1], x[2 * i]), 2))
RECURSIVE Levels(_)
Levels(x) == IF Len(x) < 2 THEN <<>> ELSE <<[mean |-> MeanR(x), se2 |-> Div(VarR(x), Len(x))]>> \o Levels(PairUp(x))
Optimal(x, lv) ==  \* first level (from 0) whose block size is beyond the correlation, otherwise the last
  LET ok == IF EqR(lv[1].se2, 0) THEN {} ELSE      \* (all values the same)
            {b \in 0..(Len(lv) - 1) : LET r == Div(lv[b + 1].se2, lv[1].se2)
                                      IN Lt(Mul(2 * Len(x), Mul(r, r)), PowR(8, b))}
  IN IF ok = {} THEN Len(lv) ELSE 1 + (CHOOSE b \in ok : \A c \in ok : b <= c)

\* without any motion the ratio is undefined
NGP(sq) == IF EqR(SumR(sq), 0) THEN "nan" ELSE Sub(Div(Mul(3, MeanR(MapS(sq, LAMBDA x : Mul(x, x)))), Mul(5, LET m == MeanR(sq) IN Mul(m, m))), 1)

Estimate(d, i) ==
  LET A == d.D[i]
      x == Values(d, A)
      sq == Squares(A, Axes(d.dim))
      lv == IF d.block THEN Levels(x) ELSE <<>>
      b == IF d.block THEN Optimal(x, lv) ELSE 0
  IN [dt |-> d.dts[i], no |-> d.nos[i],
      n |-> IF d.block THEN lv[b].mean ELSE MeanR(x),
      v |-> IF d.block THEN lv[b].se2 ELSE Div(VarR(x), NSys(d, i)),
      ngp |-> NGP(sq), sq |-> sq, x |-> x]
=============================================================================
