------------------------------ MODULE MC_BigRat ------------------------------
(* Self-test of the trusted base: the Java evaluation of BigRat agrees with
   integer arithmetic on fractions n/d and satisfies the linear algebra laws
   used by the specification, on every state of a small grid.              *)
EXTENDS KNum
CONSTANT B
VARIABLES a, b, c, d
Frac(n, m) == Div(n, m)
Init == a \in -B..B /\ c \in -B..B /\ b \in 1..B /\ d \in 1..B
Next == UNCHANGED <<a, b, c, d>>
x == Frac(a, b)
y == Frac(c, d)
EuclFloor(n, m) == n \div m
Ok ==
  /\ EqR(Add(x, y), Frac(a * d + c * b, b * d))
  /\ EqR(Sub(x, y), Frac(a * d - c * b, b * d))
  /\ EqR(Mul(x, y), Frac(a * c, b * d))
  /\ (c # 0 => EqR(Div(x, y), Frac(a * d, b * c)))
  /\ Leq(x, y) = (a * d <= c * b)
  /\ Lt(x, y) = (a * d < c * b)
  /\ EqR(x, y) = (a * d = c * b)
  /\ FloorI(x) = EuclFloor(a, b)
  /\ EqR(FloorR(x), EuclFloor(a, b))
  /\ EqR(AbsR(x), Frac(IF a < 0 THEN -a ELSE a, b))
  /\ EqR(PowR(x, 3), Frac(a * a * a, b * b * b))
  /\ EqR(SumR(<<x, y, x>>), Frac(2 * a * d + c * b, b * d))
  /\ EqR(DotR(<<x, y>>, <<y, x>>), Frac(2 * a * c, b * d))
  /\ EqR(MaxR(<<x, y>>), IF a * d >= c * b THEN x ELSE y)
  /\ EqR(MinR(<<x, y>>), IF a * d >= c * b THEN y ELSE x)
  /\ Close(x, y, 0, 1) = (a * d - c * b <= b * d /\ c * b - a * d <= b * d)
  /\ EqR("2.5e-1", Frac(1, 4)) /\ EqR("1e3", 1000) /\ EqR("-0.125", Frac(-1, 8))
  /\ ~IsNum("nan") /\ ~IsNum("inf") /\ IsNum("1e-300") /\ ~Close("nan", 1, 1, 1)
  /\ EqR(Sig("2/3", 3), "0.667")
  /\ EqR(RoundHalfUp(Frac(a, 2)), (a + 1) \div 2)
  /\ LET M == <<<<x, y, 1>>, <<2, x, 0>>, <<1, 1, y>>>> IN
       ~EqR(Det3(M), 0) => \A i, j \in 1..3 : EqR(MM(M, Inv3(M))[i][j], IF i = j THEN 1 ELSE 0)
  /\ LET M == <<<<Add(1, Mul(x, x)), Mul(x, y)>>, <<Mul(x, y), Add(1, Mul(y, y))>>>> IN
       /\ PosDef(M)
       /\ \A i, j \in 1..2 : EqR(MM(M, Solve(M, <<<<1, 0>>, <<0, 1>>>>))[i][j], IF i = j THEN 1 ELSE 0)
  /\ LET M == <<<<x, y>>, <<y, x>>>> IN PosDef(M) = (a > 0 /\ Lt(AbsR(y), x))
  /\ EqR(VarR(<<x, y>>), Div(Mul(Sub(x, y), Sub(x, y)), 2))
=============================================================================
