--------------------------- MODULE Trace_Resample ---------------------------
(***************************************************************************)
(* Recorded resampling runs of the real code.                              *)
(*  x        the values resampled from; draws: the number of draws asked   *)
(*           for (not necessarily whole) - or, with hasd, the displacement *)
(*           data d of one interval, from which both follow by Estim;      *)
(*           n0, cap, alpha; pv: p-value of   *)
(*           the test after each stage (scripted, or computed by scipy     *)
(*           from the recorded values: the environment)                    *)
(*  obs      err, samples, warned, again ("" or the samples of a second    *)
(*           run with an equally seeded random state)                      *)
(*  whole    x are whole numbers, so that draws * sample must be one, too  *)
(*  tie      every p-value is alpha                                        *)
(*  spread   enough samples to judge their mean and variance               *)
(***************************************************************************)
EXTENDS Resample, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, bad
case == Cases[cid]
obs == case.obs
TInit == /\ cid \in 1..Len(Cases) /\ bad = <<>> /\ RInit(Cases[cid].n0)
Failed(cl) == LET f == SelectSeq(cl, LAMBDA x : ~x[2]) IN MapS(f, LAMBDA x : x[1])
PNow == IF tests <= Len(case.pv) THEN case.pv[tests] ELSE "1"     \* nothing recorded beyond: the run ended earlier
PassOf(p) == IF IsNum(p) THEN p ELSE "1"                           \* an undefined test does not reject
X == IF case.hasd THEN Values(case.d, case.d.D[1]) ELSE case.x
Draws == FloorI(IF case.hasd THEN NSys(case.d, 1) ELSE case.draws)
Sq(x) == Mul(x, x)
Near(a, b, tol) == Leq(AbsR(Sub(a, b)), tol)
PopVar == LET x == X m == MeanR(x) IN Div(SumR(MapS(x, LAMBDA v : Sq(Sub(v, m)))), Len(x))
IntNear(v) == Near(v, RoundHalfUp(v), "1e-6")
Asc(s) == SortSeq(s, LAMBDA a, b : Lt(a, b))
Clauses ==
  LET s == obs.samples k == Len(s) xs == Asc(X) ex == Div(PopVar, Draws) IN
  << <<"resample-number", case.tie \/ k = have>>,
     <<"resample-warning", case.tie \/ (obs.warned <=> Rejected(PassOf(PNow), case.alpha))>>,
     \* every p-value equals alpha: either they pass or they do not, throughout
     <<"resample-tie", case.tie => IF k = case.n0 THEN ~obs.warned ELSE k > case.n0 /\ k >= case.cap /\ k < case.cap + Batch /\ obs.warned>>,
     <<"resample-range", \A j \in 1..k : Leq(Sub(xs[1], "1e-7"), s[j]) /\ Leq(s[j], Add(xs[Len(xs)], "1e-7"))>>,
     <<"resample-draws", case.whole => \A j \in 1..k : IntNear(Mul(s[j], Draws))>>,
     \* mean of the samples: six standard errors
     <<"resample-mean", case.spread => Leq(Sq(Sub(MeanR(s), MeanR(X))), Mul(36, Div(ex, k)))>>,
     \* their variance is that of a mean of Draws draws with replacement: within 25 % (k >= 1500: > 6 standard errors)
     <<"resample-variance", case.spread => Near(VarR(s), ex, Mul("1/4", ex))>>,
     <<"resample-reproducible", obs.again = <<>> \/ obs.again = s>> >>
Draw == /\ obs.err = "" /\ More(PassOf(PNow), case.alpha, case.cap) /\ UNCHANGED <<cid, bad>>
EndRun == /\ obs.err = "" /\ Stop(PassOf(PNow), case.alpha, case.cap)
          /\ bad' = Failed(Clauses) /\ UNCHANGED cid
Err == /\ obs.err # "" /\ rstate = "run" /\ rstate' = "end" /\ bad' = <<"no-error">> /\ UNCHANGED <<cid, have, tests>>
Report == /\ rstate = "end" /\ rstate' = "reported"
          /\ PrintT(ToJson(<<"VERDICT", case.id, bad, <<>>>>)) /\ UNCHANGED <<cid, bad, have, tests>>
TNext == Draw \/ EndRun \/ Err \/ Report
=============================================================================
