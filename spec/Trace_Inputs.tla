--------------------------- MODULE Trace_Inputs ---------------------------
(***************************************************************************)
(* Replays a recorded history of calls.  Contents (of inputs, objects and  *)
(* outcomes) are given as tokens: equal tokens stand for equal content.    *)
(* case.own: the inputs at the start.  A step: call = [op, uses, on],      *)
(* out, made (0, or the number of the object that was made), own and objs  *)
(* after the call, frame: whether each universe is at the frame where it   *)
(* was, or at the first one.                                               *)
(***************************************************************************)
EXTENDS Inputs, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, pos, objs, memo, bad
vars == <<cid, pos, objs, memo, bad>>
case == Cases[cid]
TInit == cid \in 1..Len(Cases) /\ pos = 1 /\ objs = <<>> /\ memo = <<>> /\ bad = <<>>
Changed(a, b) == {i \in DOMAIN a : a[i] # b[i]}
Step ==
  LET s == case.steps[pos]
      call == [op |-> s.op, uses |-> {s.uses[i] : i \in 1..Len(s.uses)}, on |-> s.on]
      cause == Cause(case.own, objs, call)
      before == IF s.made # 0 THEN [i \in 1..Len(objs) |-> objs[i]] ELSE objs
  IN /\ pos <= Len(case.steps)
     /\ bad' = bad \o (IF InputsKept(case.own, s.own) THEN <<>>
                       ELSE SetToSeq({"input-changed: " \o case.names[i] : i \in Changed(case.own, s.own)}))
                   \o (IF OthersKept(before, s.objs, call) THEN <<>> ELSE <<"other-object-changed">>)
                   \o (IF SameOutcome(memo, cause, s.out) THEN <<>> ELSE <<"repeated-call-differs">>)
                   \o (IF s.frame THEN <<>> ELSE <<"frame-moved">>)
                   \* a call that fails leaves its object as it was
                   \o (IF s.on # 0 /\ s.failed /\ s.objs[s.on] # objs[s.on] THEN <<"failed-call-changed-object">> ELSE <<>>)
                   \* calls that are valid do not fail, the others do
                   \o (IF s.failed = s.wrong THEN <<>> ELSE <<"error-reported">>)
     /\ memo' = Append(memo, <<cause, s.out>>)
     /\ objs' = s.objs
     /\ pos' = pos + 1
     /\ UNCHANGED cid
Uniq(s) == SetToSeq({s[i] : i \in 1..Len(s)})
Report == /\ pos = Len(case.steps) + 1 /\ pos' = pos + 1
          /\ PrintT(ToJson(<<"VERDICT", case.id, Uniq(bad), <<>>>>))
          /\ UNCHANGED <<cid, objs, memo, bad>>
TNext == Step \/ Report
=============================================================================
