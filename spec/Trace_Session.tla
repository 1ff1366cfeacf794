--------------------------- MODULE Trace_Session ---------------------------
(***************************************************************************)
(* Replays a recorded session step by step.  A step has the operation x    *)
(* and what was seen after it: whether the call failed, per slot the name  *)
(* of the reference object it equals (data and fit separately; references  *)
(* are objects built and fitted alone in a new process), which predictive  *)
(* reference it equals, the files there are, which of them changed, and    *)
(* for the fresh copies read back from every file what they equal.         *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, pos, st, bad
vars == <<cid, pos, st, bad>>
case == Cases[cid]
PathFn(n) == CASE n = "a" -> "a.hdf" [] n = "a.txt" -> "a.hdf" [] n = "a.hdf" -> "a.hdf"
               [] n = "b.c/a" -> "b.c/a.hdf" [] n = "b.c/a.v1" -> "b.c/a.hdf"
               [] n = "d/run.300K.x" -> "d/run.300K.hdf" [] n = "d/run.300K.hdf" -> "d/run.300K.hdf"
               [] n = ".a" -> ".a.hdf" [] n = "d/.b.h5" -> "d/.b.hdf"
TInit == cid \in 1..Len(Cases) /\ pos = 1 /\ st = S0 /\ bad = <<>>
Failed(cl) == LET f == SelectSeq(cl, LAMBDA x : ~x[2]) IN [i \in 1..Len(f) |-> f[i][1]]
Tag(o, what) == (IF o.restored THEN "restored-" ELSE "session-") \o what
Present == {p \in Paths : Held(st'.files[p])}
Step ==
  LET s == case.steps[pos] x == s.x
      objcl(i) == LET o == st'.objs[i] IN
        IF ~Held(o) THEN << <<"session-slot", s.objs[i].data = "empty">> >>
        ELSE << <<Tag(o, "data"), s.objs[i].data = o.data>>,
                <<Tag(o, "fit"), s.objs[i].fit = o.fit>> >>
  IN /\ pos <= Len(case.steps)
     /\ st' = Apply(st, x)
     /\ bad' = bad \o Failed(
          << <<IF x.op \in {"save", "load", "from", "take"} THEN "file-error-" \o x.op ELSE "session-error-" \o x.op, s.failed = Fails(st, x)>>,
             <<"file-names", {s.files[k] : k \in 1..Len(s.files)} = Present>>,
             <<"file-kept", \A k \in 1..Len(s.changed) : ~(s.changed[k] \in Paths) \/ ~Held(st.files[s.changed[k]])>>,
             <<"session-error-class", s.err # "Hang">>,
             <<(IF Held(st.objs[x.o]) /\ st.objs[x.o].restored THEN "restored-" ELSE "session-") \o "prediction",
               (x.op = "predict" /\ ~Fails(st, x) /\ ~s.failed) => s.pred = <<st.objs[x.o].data, st.objs[x.o].fit>> >>
          >> \o objcl(1) \o objcl(2))
     /\ pos' = pos + 1
     /\ UNCHANGED cid
Uniq(s) == SetToSeq({s[i] : i \in 1..Len(s)})
Report == /\ pos = Len(case.steps) + 1 /\ pos' = pos + 1
          /\ PrintT(ToJson(<<"VERDICT", case.id, Uniq(bad), <<>>>>))
          /\ UNCHANGED <<cid, st, bad>>
TNext == Step \/ Report
=============================================================================
