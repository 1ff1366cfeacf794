-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* The generalised least-squares straight line.                            *)
(*                                                                         *)
(* Data `e': dt, n (estimates), v (variances), no (observation counts) per *)
(* interval.  Settings `f': start, model, condmax, icept (fit intercept).  *)
(***************************************************************************)
EXTENDS KNum

\* the intervals in the fit
Fitted(e, f) == SelectSeq([i \in 1..Len(e.dt) |-> i], LAMBDA i : Leq(f.start, e.dt[i]))
FitError(e, f) == Len(Fitted(e, f)) = 0
At(s, ix) == MapS(ix, LAMBDA i : s[i])

\* variances: as observed, or the best random-walk law  a dt^2 / n_o  (least squares in a >= 0)
Growth(e, ix) == MapS(ix, LAMBDA i : Div(Mul(e.dt[i], e.dt[i]), e.no[i]))
ModelVar(e, ix) == LET g == Growth(e, ix) a == Div(DotR(At(e.v, ix), g), DotR(g, g))
                   IN MapS(g, LAMBDA x : Mul(a, x))
Vars(e, f) == LET ix == Fitted(e, f) IN IF f.model THEN ModelVar(e, ix) ELSE At(e.v, ix)

\* covariance before conditioning: variance at the shorter interval times the ratio of the counts
RawCov(v, no) == Tup(Len(v), LAMBDA i : Tup(Len(v), LAMBDA j :
                    LET a == IF i < j THEN i ELSE j b == IF i < j THEN j ELSE i
                    IN Mul(v[a], Div(no[a], no[b]))))
Raw(e, f) == RawCov(Vars(e, f), At(e.no, Fitted(e, f)))

\* largest eigenvalue: a claimed value is certified by two definiteness tests
ScaleM(A, c) == Tup(Len(A), LAMBDA i : MapS(A[i], LAMBDA x : Mul(c, x)))
CertifiedMax(A, lam, eps) ==
  /\ PosDef(AddDiag(ScaleM(A, -1), Mul(lam, Add(1, eps))))
  /\ ~PosDef(AddDiag(ScaleM(A, -1), Mul(lam, Sub(1, eps))))
Symmetric(A, rt, at) == \A i \in 1..Len(A) : \A j \in 1..i : Close(A[i][j], A[j][i], rt, at)
Symm(A) == Tup(Len(A), LAMBDA i : Tup(Len(A), LAMBDA j : Div(Add(A[i][j], A[j][i]), 2)))
MaxAbs(A) == MaxR(FoldLeft(LAMBDA acc, r : acc \o MapS(r, LAMBDA x : AbsR(x)), <<0>>, A))
\* C is C0 with its eigenvalues below tau raised to tau: no eigenvalue is below tau, P = C - C0 only lifts, and
\* what it lifts ends at tau, (C - tau) P = 0; so C and P share their eigenvectors and C is determined by C0
AtLeast(C, tau) == PosDef(AddDiag(C, Mul("-0.9998", tau)))
Floored(C, C0, tau, lam, eps) ==
  LET P == MSub(C, C0) IN
  /\ AtLeast(C, tau)
  /\ PosDef(AddDiag(Symm(P), Mul(lam, eps)))
  /\ Leq(MaxAbs(MM(P, AddDiag(C, Neg(tau)))), Mul(eps, Mul(lam, lam)))

\* closed form: normal equations with weight matrix C^-1
Design(ts, icept) == MapS(ts, LAMBDA t : IF icept THEN <<t, 1>> ELSE <<t>>)
GLS(C, ts, y, icept) ==
  LET X == Design(ts, icept)
      W == Solve(C, Tup(Len(ts), LAMBDA i : X[i] \o <<y[i]>>))       \* C^-1 [X y]
      p == Len(X[1])
      XT == Transp(X)
      H == Tup(p, LAMBDA a : Tup(p, LAMBDA b : DotR(XT[a], Col(W, b))))
      r == Tup(p, LAMBDA a : <<DotR(XT[a], Col(W, p + 1))>>)
      cov == Solve(H, Tup(p, LAMBDA a : Tup(p, LAMBDA b : IF a = b THEN 1 ELSE 0)))
      th == Solve(H, r)
  IN [theta |-> Tup(p, LAMBDA a : th[a][1]), cov |-> cov]

\* transport coefficients; g: gradient sample
Charge == "1.602176634e-19"
Kb == "1.380649e-23"
SelfD(g, dims) == Div(g, Mul("20000", dims))
JumpD(g, dims, natoms) == Div(SelfD(g, dims), natoms)
Sigma(g, dims, vol, temp) ==      \* mS/cm from square angstrom per picosecond, cubic angstrom, kelvin
  Div(Mul(Mul(SelfD(g, dims), 1000), Mul(Charge, Charge)), Mul(Mul(vol, "1e-24"), Mul(Kb, temp)))
=============================================================================
