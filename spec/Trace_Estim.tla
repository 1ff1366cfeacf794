---------------------------- MODULE Trace_Estim ----------------------------
(***************************************************************************)
(* Checks recorded estimates of the real bootstrap and analysis objects:   *)
(* the machine produces the estimates one interval after the other, each   *)
(* is compared with the entry at that position.                            *)
(*  obs: err; dt, n, v, s, no, ngp (sequences); dr (sorted lengths per     *)
(*  interval); bn, bv, bs (resampled moments) and samples (per interval)   *)
(*  when boot; ngpmax ("none" or a time)                                   *)
(***************************************************************************)
EXTENDS Estim, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, pos, bad, stage
vars == <<cid, pos, bad, stage>>
case == Cases[cid]
d == case.d
obs == case.obs
TInit == cid \in 1..Len(Cases) /\ pos = 0 /\ bad = <<>> /\ stage = "start"
Failed(cl) == LET f == SelectSeq(cl, LAMBDA x : ~x[2]) IN MapS(f, LAMBDA x : x[1])
Rep == Reported(d)
M == Len(Rep)
Aligned ==
  << <<"align-length", /\ Len(obs.dt) = M /\ Len(obs.n) = M /\ Len(obs.v) = M /\ Len(obs.s) = M
                       /\ Len(obs.ngp) = M /\ Len(obs.dr) = M /\ Len(obs.no) = M /\ Len(obs.no2) = M>>,
     <<"align-resampled", IF d.boot THEN /\ Len(obs.bn) = M /\ Len(obs.bv) = M /\ Len(obs.bs) = M /\ Len(obs.samples) = M
                          ELSE Len(obs.bn) = 0 /\ Len(obs.samples) = 0>> >>
Start == /\ stage = "start"
         /\ bad' = IF obs.err # "" THEN <<"no-error">> ELSE Failed(Aligned)
         /\ stage' = IF bad' = <<>> /\ M > 0 THEN "walk" ELSE "done"
         /\ pos' = 1 /\ UNCHANGED cid
Asc(s) == SortSeq(s, LAMBDA a, b : Lt(a, b))
Sq(x) == Mul(x, x)
Tol2(e) == Mul(case.at, Sq(e.n))
\* every resampled value lies within the range of the values, and is a mean of the right number of draws (see Resample)
Step ==
  LET e == Estimate(d, Rep[pos])
      rt == case.rt
      at == Mul(case.at, e.n)
      sm == IF d.boot THEN obs.samples[pos] ELSE <<>>
      cl == << <<"align-interval", Close(obs.dt[pos], e.dt, "1e-12", 0)>>,
               <<"count", Close(obs.no[pos], e.no, "1e-12", 0) /\ Close(obs.no2[pos], e.no, "1e-12", 0)>>,
               <<"mean", Close(obs.n[pos], e.n, rt, at)>>,
               <<"variance", Close(obs.v[pos], e.v, Mul(rt, 100), Tol2(e))>>,
               <<"std", Close(Sq(obs.s[pos]), obs.v[pos], "1e-9", 0) /\ Leq(0, obs.s[pos])>>,
               <<"ngp", IF e.ngp = "nan" THEN ~IsNum(obs.ngp[pos]) ELSE Close(obs.ngp[pos], e.ngp, Mul(rt, 10), Mul(rt, 10))>>,
               <<"lengths", LET sq == Asc(e.sq) o == obs.dr[pos] IN
                    /\ Len(o) = Len(sq)
                    /\ \A j \in 1..Len(sq) : Leq(0, o[j]) /\ Close(Sq(o[j]), sq[j], Mul(rt, 10), at)>>,
               <<"resampled-mean", d.boot => Close(obs.bn[pos], MeanR(sm), rt, at)>>,
               <<"resampled-variance", d.boot => Close(obs.bv[pos], VarR(sm), Mul(rt, 100), Tol2(e))>>,
               <<"resampled-std", d.boot => Close(Sq(obs.bs[pos]), obs.bv[pos], "1e-9", 0)>>,
               <<"resampled-range", d.boot => LET x == Asc(e.x) IN \A j \in 1..Len(sm) :
                    Leq(Sub(x[1], at), sm[j]) /\ Leq(sm[j], Add(x[Len(x)], at))>> >>
  IN /\ stage = "walk"
     /\ bad' = bad \o Failed(cl)
     /\ pos' = pos + 1
     /\ stage' = IF pos = M THEN "end" ELSE "walk"
     /\ UNCHANGED cid
End == /\ stage = "end"
       /\ bad' = bad \o Failed(<< <<"align-ngpmax", obs.ngpmax = "none" \/ (\E j \in 1..M : ~IsNum(obs.ngp[j])) \/
             \E i \in 1..M : Close(obs.dt[i], obs.ngpmax, 0, 0) /\ \A j \in 1..M : Leq(obs.ngp[j], obs.ngp[i])>> >>)
       /\ stage' = "done" /\ UNCHANGED <<cid, pos>>
Uniq(s) == SetToSeq({s[i] : i \in 1..Len(s)})
Report == /\ stage = "done" /\ stage' = "reported"
          /\ PrintT(ToJson(<<"VERDICT", case.id, Uniq(bad), <<>>>>))
          /\ UNCHANGED <<cid, pos, bad>>
TNext == Start \/ Step \/ End \/ Report
=============================================================================
