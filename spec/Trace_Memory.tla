---------------------------- MODULE Trace_Memory ----------------------------
(***************************************************************************)
(* Requests judged by their need of memory only (too big to be run).       *)
(*  c: options, n: steps of the trajectory, N: mobile atoms, item: bytes   *)
(*  per entry, mem: the limit in GB, err, named                            *)
(***************************************************************************)
EXTENDS Pipeline, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid
case == Cases[cid]
Need == Mul("1e-9", Bytes(case.c, case.n, case.N, SetToSortSeq(IdealIntervals(case.c, case.n), LAMBDA a, b : a < b), case.item))
Verdict == IF Lt(case.mem, Need)
           THEN (IF case.err = "MemoryError" THEN <<>> ELSE <<"memory-refused">>) \o (IF case.err = "MemoryError" /\ ~case.named THEN <<"memory-limit-named">> ELSE <<>>)
           ELSE IF case.err = "MemoryError" THEN <<"memory-not-refused">> ELSE IF case.err # "" THEN <<"no-error">> ELSE <<>>
TInit == cid \in 1..Len(Cases) /\ PInit(Cases[cid].c)
TNext == /\ stage = "read" /\ stage' = "done" /\ UNCHANGED <<cid, inp, tracks, carts, cells, rows>>
         /\ PrintT(ToJson(<<"VERDICT", case.id, Verdict, <<>>>>))
=============================================================================
