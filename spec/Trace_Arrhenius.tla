--------------------------- MODULE Trace_Arrhenius ---------------------------
(***************************************************************************)
(* Checks recorded uses of the Arrhenius classes.  A case is a history of  *)
(* constructions in one process; the machine steps through it.  A step:    *)
(*   model, temps, given, b (bounds), obs: err, bounds, x, kept (arguments *)
(*   unchanged), chain (rows), cols (named parameters), dist (a row per    *)
(*   temperature), extra (<<temperature, values>>), fn (<<temp, p, value>>)*)
(***************************************************************************)
EXTENDS Arrhenius, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, pos, bad
case == Cases[cid]
TInit == cid \in 1..Len(Cases) /\ pos = 1 /\ bad = <<>>
Failed(cl) == LET f == SelectSeq(cl, LAMBDA x : ~x[2]) IN [i \in 1..Len(f) |-> f[i][1]]
Rt == "1e-10"
Tiny == "1e-290"
Step ==
  LET s == case.steps[pos] o == s.obs
      want == Bounds(s.model, s.given, s.b, s.temps)
      np == Len(want)
      vals(temp, seq) == Len(seq) = Len(o.chain) /\ \A i \in 1..Len(seq) : Close(seq[i], Law(s.model, temp, o.chain[i]), Rt, Tiny)
      cl == IF o.err # "" THEN << <<"no-error", FALSE>> >>
            ELSE << <<"bounds", Len(o.bounds) = np /\ \A i \in 1..Len(o.bounds) :
                        Len(o.bounds[i]) = 2 /\ EqR(o.bounds[i][1], want[i][1]) /\ EqR(o.bounds[i][2], want[i][2])>>,
                    <<"first-chain", \A r \in 1..Len(o.first) : \A j \in 1..np : Leq(want[j][1], o.first[r][j]) /\ Leq(o.first[r][j], want[j][2])>>,
                    <<"temperatures", o.x = s.temps>>,
                    <<"arguments-kept", o.kept>>,
                    <<"parameters", Len(o.cols) = np /\ \A j \in 1..Len(o.cols) :
                        Len(o.cols[j]) = Len(o.chain) /\ \A i \in 1..Len(o.chain) : EqR(o.cols[j][i], o.chain[i][j])>>,
                    <<"distribution", Len(o.dist) = Len(s.temps) /\ \A k \in 1..Len(o.dist) : vals(s.temps[k], o.dist[k])>>,
                    <<"extrapolation", \A k \in 1..Len(o.extra) : vals(o.extra[k][1], o.extra[k][2])>>,
                    <<"law", \A k \in 1..Len(o.fn) : Close(o.fn[k][3], Law(s.model, o.fn[k][1], o.fn[k][2]), Rt, Tiny)>> >>
  IN /\ pos <= Len(case.steps)
     /\ bad' = bad \o Failed(cl)
     /\ pos' = pos + 1 /\ UNCHANGED cid
Uniq(s) == SetToSeq({s[i] : i \in 1..Len(s)})
Report == /\ pos = Len(case.steps) + 1 /\ pos' = pos + 1
          /\ PrintT(ToJson(<<"VERDICT", case.id, Uniq(bad), <<>>>>)) /\ UNCHANGED <<cid, bad>>
TNext == Step \/ Report
=============================================================================
