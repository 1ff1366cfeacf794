------------------------------- MODULE MC_Fit -------------------------------
(***************************************************************************)
(* Exhaustive over small data (three intervals): the raw covariance is     *)
(* symmetric and positive definite exactly when v n_o^2 increases; the     *)
(* least-squares line reproduces data that lie on a line, whatever the     *)
(* weights, and through the origin without an intercept; the model         *)
(* variance reproduces a random walk; the conversion factors agree with    *)
(* the Nernst-Einstein relation.                                           *)
(***************************************************************************)
EXTENDS Fit, Json
CONSTANTS Vals
VARIABLES v, no, line
Init == v \in [1..3 -> Vals] /\ no = <<>> /\ line = <<>>
Next == /\ no = <<>> /\ no' \in [1..3 -> Vals] /\ line' \in {<<1, 0>>, <<2, 3>>, <<5, -1>>} /\ UNCHANGED v
On == no # <<>>
Ts == <<1, 2, 4>>
C == RawCov(v, no)
Inc == \A i \in 1..2 : v[i] * no[i] * no[i] < v[i + 1] * no[i + 1] * no[i + 1]
SymmetricRaw == On => Symmetric(C, 0, 0)
Definite == On => (PosDef(C) <=> Inc)
OnTheLine == (On /\ Inc) =>
   LET y == MapS(Ts, LAMBDA t : line[1] * t + line[2]) r == GLS(C, Ts, y, TRUE) r0 == GLS(C, Ts, MapS(Ts, LAMBDA t : line[1] * t), FALSE)
   IN /\ EqR(r.theta[1], line[1]) /\ EqR(r.theta[2], line[2]) /\ EqR(r0.theta[1], line[1])
      /\ PosDef(r.cov) /\ Symmetric(r.cov, 0, 0)
RandomWalk == On => LET e == [dt |-> Ts, no |-> no, v |-> Tup(3, LAMBDA i : Div(7 * Ts[i] * Ts[i], no[i])), n |-> Ts]
                        m == ModelVar(e, <<1, 2, 3>>)
                    IN \A i \in 1..3 : EqR(m[i], e.v[i])
Units == EqR(JumpD(3, 2, 5), Div(SelfD(3, 2), 5)) /\ EqR(Mul(Sigma(1, 3, 10, 300), 10), Sigma(1, 3, 1, 300))
\* conditioning, on matrices whose eigenvalues a + b and a - b are known: the floored matrix is accepted, one
\* lifted too far, or not at all, is not
Eps == "1e-9"
Conditioning == On => LET a == v[1] b == v[2] lam == a + b tau == Div(lam, 10)
                          C0 == <<<<a, b>>, <<b, a>>>>
                          up == IF Lt(a - b, tau) THEN tau ELSE a - b
                          F == <<<<Div(Add(lam, up), 2), Div(Sub(lam, up), 2)>>, <<Div(Sub(lam, up), 2), Div(Add(lam, up), 2)>>>>
                      IN /\ CertifiedMax(C0, lam, Eps) /\ ~CertifiedMax(C0, lam + 1, Eps)
                         /\ Floored(F, C0, tau, lam, Eps)
                         /\ Lt(a - b, tau) => ~Floored(C0, C0, tau, lam, Eps)
                         /\ Lt(a - b, tau) => ~Floored(AddDiag(C0, Sub(tau, a - b)), C0, tau, lam, Eps)
=============================================================================
