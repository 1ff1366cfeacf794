--------------------------- MODULE Trace_Refused ---------------------------
(* Requests the system has to refuse: each recorded one ended with an error. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.KTRACE)
VARIABLES cid, done
TInit == cid \in 1..Len(Cases) /\ done = FALSE
TNext == /\ ~done /\ done' = TRUE /\ UNCHANGED cid
         /\ PrintT(ToJson(<<"VERDICT", Cases[cid].id,
               IF Cases[cid].err \in {"", "Hang"} THEN <<"error-reported">> ELSE <<>>, <<>>>>))
=============================================================================
