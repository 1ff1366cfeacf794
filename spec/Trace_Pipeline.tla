--------------------------- MODULE Trace_Pipeline ---------------------------
(***************************************************************************)
(* Checks recorded runs of the real parsers and analysis constructors.     *)
(* A case holds the arguments of one or more (replica) trajectories; the   *)
(* machine of Pipeline.tla is run on each in turn, its rows are collected  *)
(* side by side, and then every recorded observable is compared with the   *)
(* collected state, clause by clause.  The verdict (the names of the       *)
(* failed clauses) is printed for every case.                              *)
(*  reps     inputs, one per trajectory                                    *)
(*  obs      err (exception class or ""), dt, no, vol, shape (atoms and    *)
(*           observations per array), probes (i, a, o: 0-based positions,  *)
(*           v: vector), idx (reported selection or <<>>)                  *)
(*  ivl      judge the choice of intervals too                             *)
(*  mem      "none" or the memory limit in GB; item: bytes per entry       *)
(***************************************************************************)
EXTENDS Pipeline, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, rep, acc, verdict, dev
vars == <<pvars, cid, rep, acc, verdict, dev>>
case == Cases[cid]
obs == case.obs

TInit == /\ cid \in 1..Len(Cases)
         /\ rep = 1 /\ acc = <<>> /\ verdict = <<>> /\ dev = <<>>
         /\ PInit(Cases[cid].reps[1])

Failed(cl) == LET f == SelectSeq(cl, LAMBDA x : ~x[2]) IN MapS(f, LAMBDA x : x[1])

(* One trajectory is done: its rows go beside those of the earlier ones.   *)
Collect ==
  /\ stage = "observe"
  /\ acc' = acc \o rows
  /\ IF rep < Len(case.reps)
     THEN /\ rep' = rep + 1 /\ stage' = "read" /\ inp' = case.reps[rep + 1]
          /\ tracks' = <<>> /\ carts' = <<>> /\ cells' = <<>> /\ rows' = <<>>
     ELSE /\ stage' = "judge" /\ UNCHANGED <<rep, inp, tracks, carts, cells, rows>>
  /\ UNCHANGED <<cid, verdict, dev>>

R == Len(case.reps)
n == Len(acc[1])
Unit == Mul(StepTime(inp), inp.unit)
Ks == MapS(obs.dt, LAMBDA d : IF IsNum(d) THEN FloorI(RoundHalfUp(Div(d, Unit))) ELSE -1)
KsSane == \A i \in 1..Len(Ks) : Ks[i] >= 1 /\ Ks[i] <= n
KeptKs == Kept(inp, n, NMobile, Ks)

ExpectVec(p, kept) == Window(acc[p.a + 1], kept[p.i + 1], p.o + 1)
(* what strictly k file steps would give: the known deviation of the file readers *)
StrictVec(p, kept) == Window(Tail(acc[p.a + 1]), kept[p.i + 1], p.o + 1)

ShapeOk ==
  LET kept == KeptKs
  IN /\ Len(obs.shape) = Len(kept)
     /\ \A i \in 1..Len(kept) : obs.shape[i][1] = Len(acc) /\ obs.shape[i][2] = NObs(inp, n, kept[i])

Clauses ==
  LET kept == KeptKs sane == KsSane shp == KsSane /\ ShapeOk IN
  << <<"time-axis", \A i \in 1..Len(Ks) : Close(obs.dt[i], Mul(Ks[i], Unit), "1e-9", 0)>>,
     <<"intervals-in-range", sane>> >>
  \o (IF case.ivl /\ sane THEN MapS(IntervalClauses(inp, n, Ks), LAMBDA x : <<"interval-" \o x[1], x[2]>>) ELSE <<>>)
  \o << <<"shape", shp>>,
        <<"count-independent", obs.no = <<"skip">> \/
             (/\ sane /\ Len(obs.no) = Len(kept)
              /\ \A i \in 1..Len(obs.no) : Close(obs.no[i], Mul(R, NIndep(inp, n, NMobile, kept[i])), "1e-9", 0))>>,
        <<"count-decreasing", obs.no = <<"skip">> \/ \A i \in 1..(Len(obs.no) - 1) : Leq(obs.no[i + 1], obs.no[i])>>,
        <<"volume", obs.vol = "none" \/ Close(obs.vol, AbsR(Det3(case.reps[1].frames[1].L)), case.vrt, 0)>>,
        <<"selection", obs.idx = <<>> \/ obs.idx = MapS(Mobile(inp), LAMBDA i : i - 1)>>,
        <<"displacement", shp => \A j \in 1..Len(obs.probes) :
             VClose(obs.probes[j].v, ExpectVec(obs.probes[j], kept), case.rt, case.at)>> >>

Deviations ==
  LET kept == KeptKs IN
  IF inp.lead /\ inp.sampling = "multi-origin" /\ KsSane /\ ShapeOk /\ n > 1
     /\ \E j \in 1..Len(obs.probes) : obs.probes[j].o = 0 /\ kept[obs.probes[j].i + 1] < n
          /\ ~VClose(obs.probes[j].v, StrictVec(obs.probes[j], kept), case.rt, case.at)
          /\ VClose(obs.probes[j].v, ExpectVec(obs.probes[j], kept), case.rt, case.at)
  THEN <<"first-window-one-step-short">> ELSE <<>>

(* Memory: refused iff the arrays would need more than the limit.          *)
NeedGB == Mul("1e-9", Bytes(inp, n, NMobile, SetToSortSeq(IdealIntervals(inp, n), LAMBDA a, b : a < b), case.item))
MustRefuse == case.mem # "none" /\ Lt(case.mem, NeedGB)

Judge ==
  /\ stage = "judge"
  /\ verdict' = Failed(
       IF SamplingError(inp) THEN << <<"error-reported", obs.err \notin {"", "Hang"}>> >>
       ELSE IF MustRefuse THEN << <<"memory-refused", obs.err = "MemoryError">>,
                                  <<"memory-limit-named", obs.err = "MemoryError" => case.named>> >>
       ELSE IF obs.err # "" THEN << <<IF obs.err = "MemoryError" THEN "memory-not-refused" ELSE "no-error", FALSE>> >>
       ELSE Clauses)
  /\ dev' = IF obs.err = "" /\ ~SamplingError(inp) THEN Deviations ELSE <<>>
  /\ stage' = "done"
  /\ UNCHANGED <<inp, tracks, carts, cells, rows, cid, rep, acc>>

JudgeError ==
  /\ stage = "error"
  /\ verdict' = Failed(<< <<"error-reported", obs.err \notin {"", "Hang"}>> >>)
  /\ stage' = "done"
  /\ UNCHANGED <<inp, tracks, carts, cells, rows, cid, rep, acc, dev>>

Report == /\ stage = "done" /\ stage' = "reported"
          /\ PrintT(ToJson(<<"VERDICT", case.id, verdict, dev>>))
          /\ UNCHANGED <<inp, tracks, carts, cells, rows, cid, rep, acc, verdict, dev>>

TNext == (PNext /\ UNCHANGED <<cid, rep, acc, verdict, dev>>) \/ Collect \/ Judge \/ JudgeError \/ Report
TSpec == TInit /\ [][TNext]_vars
=============================================================================
