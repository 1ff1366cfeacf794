----------------------------- MODULE Trace_Fit -----------------------------
(***************************************************************************)
(* Checks recorded fits.  Every case has data e, settings f, the parts to  *)
(* be judged and an observation obs:                                       *)
(*   err; cov (rows), lam (claimed largest eigenvalue of the raw matrix);  *)
(*   grad, icpt (samples), hasicpt; want (expected number of samples);     *)
(*   coef (samples of the coefficient), flat (rows of the exposed chain);  *)
(*   dist (credible lines, one row per interval); ppd (blocks of rows)     *)
(* The machine judges one part after the other.                            *)
(***************************************************************************)
EXTENDS Fit, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, todo, bad, dev
vars == <<cid, todo, bad, dev>>
case == Cases[cid]
e == case.e
f == case.f
obs == case.obs
Failed(cl) == LET x == SelectSeq(cl, LAMBDA y : ~y[2]) IN MapS(x, LAMBDA y : y[1])

TInit == cid \in 1..Len(Cases) /\ todo = <<"start">> /\ bad = <<>> /\ dev = {}
Ix == Fitted(e, f)
M == Len(Ix)

Start == /\ todo = <<"start">>
         /\ bad' = IF obs.err = "Hang" THEN <<"no-error">>
                   ELSE IF FitError(e, f) THEN (IF obs.err = "" THEN <<"error-reported">> ELSE <<>>)
                   ELSE IF obs.err # "" THEN <<"no-error">> ELSE <<>>
         /\ todo' = IF bad' = <<>> /\ obs.err = "" THEN case.parts \o <<"report">> ELSE <<"report">>
         /\ UNCHANGED <<cid, dev>>

Eps == "1e-9"
Square(A, n) == Len(A) = n /\ \A i \in 1..Len(A) : Len(A[i]) = n /\ \A j \in 1..Len(A[i]) : IsNum(A[i][j])
Cov ==
  LET C == obs.cov C0 == Raw(e, f) lam == obs.lam tau == Div(lam, f.condmax)
      rt == IF f.model THEN "2e-4" ELSE "1e-8"
      strict == Leq(f.condmax, "1e10")
      shaped == Square(C, M)
      lamok == CertifiedMax(C0, lam, "1e-6")
      wellcond == PosDef(AddDiag(C0, Mul("-1.00001", IF strict THEN tau ELSE Mul(lam, "1e-10"))))
      scale == Mul(lam, IF f.model THEN "1e-4" ELSE "1e-9")
  IN IF ~shaped THEN << <<"cov-rows", FALSE>> >>
     ELSE << <<"cov-symmetric", Symmetric(C, "1e-9", Mul(scale, "1e-3"))>>,
             <<"cov-definite", PosDef(AddDiag(Symm(C), IF strict THEN 0 ELSE Mul(lam, "1e-12")))>>,
             <<"machinery-eigenvalue", lamok>>,
             <<"cov-condition", ~strict \/ AtLeast(Symm(C), Mul(tau, IF f.model THEN "0.99" ELSE 1))>>,
             <<"cov-condition-max", PosDef(AddDiag(ScaleM(Symm(C), -1), Mul(lam, "1.001")))>>,
             <<"cov-unchanged", ~wellcond \/ \A i \in 1..M : \A j \in 1..M : Close(C[i][j], C0[i][j], rt, scale)>>,
             <<"cov-floored", ~strict \/ f.model \/ Floored(Symm(C), C0, tau, lam, "1e-8")>> >>

Sq(x) == Mul(x, x)
Post ==
  LET C == Symm(obs.cov) ts == At(e.dt, Ix) y == At(e.n, Ix)
      r == IF PosDef(C) THEN GLS(C, ts, y, f.icept) ELSE [theta |-> <<0, 0>>, cov |-> <<<<1, 0>>, <<0, 1>>>>]
      g == obs.grad c == obs.icpt
      sg == r.cov[1][1]
      \* (to be judged in double precision, the matrix must be invertible in double precision)
      clear == PosDef(AddDiag(C, Mul(obs.lam, "-1e-10"))) /\ Lt(0, r.theta[1]) /\ Leq(Mul(25, sg), Sq(r.theta[1]))     \* the truncation at zero does not matter
      mg == MeanR(g) vg == VarR(g)
      near(a, b, v) == Leq(Sq(Sub(a, b)), Mul("0.0625", v))
      like(a, v) == Leq(Mul("0.64", v), a) /\ Leq(a, Mul("1.5", v))
  IN << <<"post-count", Len(g) = obs.want /\ (obs.hasicpt => Len(c) = obs.want)>>,
        <<"post-sign", Leq(0, MinR(g))>>,
        <<"post-intercept", obs.hasicpt = f.icept>>,
        <<"post-mean", clear /\ case.judged => near(mg, r.theta[1], sg)>>,
        <<"post-spread", clear /\ case.judged => like(vg, sg)>>,
        <<"post-mean-intercept", clear /\ case.judged /\ f.icept /\ obs.hasicpt => near(MeanR(c), r.theta[2], r.cov[2][2])>>,
        <<"post-spread-intercept", clear /\ case.judged /\ f.icept /\ obs.hasicpt => like(VarR(c), r.cov[2][2])>>,
        <<"post-correlation", clear /\ case.judged /\ f.icept /\ obs.hasicpt =>
             Leq(Sq(Sub(CovR(g, c), r.cov[1][2])), Mul("0.0625", Mul(sg, r.cov[2][2])))>> >>

Conv(g, k) == CASE case.kind = "D" -> SelfD(g, case.dims)
                [] case.kind = "J" -> JumpD(g, case.dims, case.natoms)
                [] case.kind = "S" -> Sigma(g, case.dims, Mul(case.vol, k), case.temp)
SameAs(k) == Len(obs.coef) = Len(obs.grad) /\ \A i \in 1..Len(obs.coef) : Close(obs.coef[i], Conv(obs.grad[i], k), "1e-9", 0)
CoefOk == SameAs(case.reps)
CoefDev == ~CoefOk /\ case.kind = "S" /\ case.reps > 1 /\ SameAs(1)      \* the volume of one replica for all of them

Flat ==
  LET n == Len(obs.coef) IN
  << <<"chain-pairs", /\ Len(obs.flat) = n
                      /\ \A i \in 1..Len(obs.flat) : LET row == obs.flat[i] IN
                           IF obs.hasicpt THEN Len(row) = 2 /\ EqR(row[1], obs.coef[i]) /\ EqR(row[2], obs.icpt[i])
                           ELSE Len(row) = 1 /\ EqR(row[1], obs.coef[i])>>,
     <<"chain-count", (obs.hasicpt => Len(obs.icpt) = n) /\ Len(obs.grad) = n>> >>
Line(j, t) == IF obs.hasicpt THEN Add(Mul(obs.grad[j], t), obs.icpt[j]) ELSE Mul(obs.grad[j], t)
Dist ==
  << <<"lines-intervals", Len(obs.dist) = Len(e.dt)>>,
     <<"lines-samples", \A i \in 1..Len(obs.dist) : Len(obs.dist[i]) = Len(obs.grad)>>,
     <<"lines-values", (Len(obs.dist) = Len(e.dt) /\ \A i \in 1..Len(obs.dist) : Len(obs.dist[i]) = Len(obs.grad)) =>
         \A i \in 1..Len(e.dt) : \A j \in 1..Len(obs.grad) : Close(obs.dist[i][j], Line(j, e.dt[i]), "1e-10", Mul("1e-12", AbsR(Mul(obs.grad[j], e.dt[i]))))>> >>

\* predictive samples: blocks of npred rows, one block per drawn posterior sample
Ts == At(e.dt, Ix)
Ppd ==
  LET B == obs.ppd n == case.npred
      shaped == Len(B) = case.npost /\ \A b \in 1..Len(B) : Len(B[b]) = n /\ \A r \in 1..n : Len(B[b][r]) = M
      means == Tup(Len(B), LAMBDA b : Tup(M, LAMBDA i : MeanR(Col(B[b], i))))
      C == obs.cov
      fits(b, j) == \A i \in 1..M : Leq(Sq(Sub(means[b][i], Line(j, Ts[i]))), Div(Mul(Mul(49, C[i][i]), 1), n))
      cov(b, i, k) == CovR(Col(B[b], i), Col(B[b], k))
      covok(b) == \A i \in 1..M : \A k \in 1..i :
         Leq(Sq(Sub(cov(b, i, k), C[i][k])), Div(Mul(64, Add(Mul(C[i][i], C[k][k]), Sq(C[i][k]))), n))
      \* few rows per posterior sample: the deviations from the lines of all of them together
      total == n * Len(B)
      mine == Tup(Len(B), LAMBDA b : IF n >= 200 \/ total < 300 THEN 0
                                     ELSE LET s == {j \in 1..Len(obs.grad) : fits(b, j)} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE)
      pooled(i, k) == Div(SumR(Tup(Len(B), LAMBDA b : SumR(Tup(n, LAMBDA r :
                         Mul(Sub(B[b][r][i], Line(mine[b], Ts[i])), Sub(B[b][r][k], Line(mine[b], Ts[k]))))))), total)
      \* independent draws of a continuous law never coincide
      telling == Leq(Mul("1e-10", Sq(means[1][1])), C[1][1])
      distinct(b) == Cardinality({B[b][r] : r \in 1..n}) = n
  IN IF ~shaped THEN << <<"ppd-shape", FALSE>> >>
     ELSE << <<"ppd-distinct", ~telling \/ \A b \in 1..Len(B) : distinct(b)>>,
             <<"ppd-mean", \A b \in 1..Len(B) : \E j \in 1..Len(obs.grad) : fits(b, j)>>,
             <<"ppd-every-sample", case.every => \A j \in 1..Len(obs.grad) : \E b \in 1..Len(B) : fits(b, j)>>,
             <<"ppd-spread", n < 200 \/ \A b \in 1..Len(B) : covok(b)>>,
             <<"ppd-spread-all", total < 300 \/ n >= 200 \/ (\E b \in 1..Len(B) : mine[b] = 0) \/ \A i \in 1..M : \A k \in 1..i :
                 Leq(Sq(Sub(pooled(i, k), C[i][k])), Div(Mul(64, Add(Mul(C[i][i], C[k][k]), Sq(C[i][k]))), total))>> >>

Judge == /\ todo # <<>> /\ Head(todo) \notin {"start", "report"}
         /\ bad' = bad \o (CASE Head(todo) = "cov" -> Failed(Cov)
                            [] Head(todo) = "post" -> Failed(Post)
                            [] Head(todo) = "coef" -> IF CoefOk \/ CoefDev THEN <<>> ELSE <<"coefficient">>
                            [] Head(todo) = "flat" -> Failed(Flat)
                            [] Head(todo) = "dist" -> Failed(Dist)
                            [] Head(todo) = "ppd" -> Failed(Ppd))
         /\ dev' = IF Head(todo) = "coef" /\ CoefDev THEN dev \union {"replica-volume"} ELSE dev
         /\ todo' = Tail(todo)
         /\ UNCHANGED cid
Uniq(s) == SetToSeq({s[i] : i \in 1..Len(s)})
Report == /\ todo = <<"report">> /\ todo' = <<>>
          /\ PrintT(ToJson(<<"VERDICT", case.id, Uniq(bad), SetToSeq(dev)>>))
          /\ UNCHANGED <<cid, bad, dev>>
TNext == Start \/ Judge \/ Report
=============================================================================
