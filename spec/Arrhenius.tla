----------------------------- MODULE Arrhenius -----------------------------
(***************************************************************************)
(* Temperature dependence: the Arrhenius law and the Vogel-Tammann-Fulcher *)
(* law, in exact arithmetic up to 40 significant digits, and the bounds of *)
(* their parameters.                                                       *)
(***************************************************************************)
EXTENDS KNum

Digits == 40
\* exp by Taylor series after halving the argument ten times
Halvings == 10
Exp0(y) == LET step(st, k) == LET t == Sig(Div(Mul(st.t, y), k), Digits) IN [t |-> t, s |-> Sig(Add(st.s, t), Digits)]
           IN FoldLeft(step, [t |-> 1, s |-> 1], [k \in 1..18 |-> k]).s
\* (nothing below exp(-1000) can be told from nothing by a reader of double precision)
ExpR(x) == LET sq(z, k) == Sig(Mul(z, z), Digits)
           IN IF Leq(x, -1000) THEN 0 ELSE FoldLeft(sq, Exp0(Div(x, 1024)), [k \in 1..Halvings |-> k])
KbEV == Div("1.380649e-23", "1.602176634e-19")       \* Boltzmann constant in electronvolt per kelvin

\* p: parameters <<E, A>> or <<E, A, T0>>
Law(model, temp, p) ==
  LET t == IF model = "std" THEN temp ELSE Sub(temp, p[3])
  IN Mul(p[2], ExpR(Neg(Div(p[1], Mul(KbEV, t)))))

\* bounds: those given, otherwise the defaults; an open upper bound of T0 is the first temperature
Default(model) == IF model = "std" THEN <<<<0, "1">>, <<0, "1e20">>>> ELSE <<<<0, "1">>, <<0, "1e20">>, <<0, "open">>>>
Bounds(model, given, b, temps) ==
  LET x == IF given THEN b ELSE Default(model)
  IN MapS(x, LAMBDA q : IF q[2] = "open" THEN <<q[1], temps[1]>> ELSE q)
=============================================================================
