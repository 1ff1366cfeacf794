---------------------------- MODULE MC_Resample ----------------------------
(* Exhaustive over starts, caps and all outcomes of the tests; each complete *)
(* run is printed: it is replayed with exactly these outcomes.               *)
EXTENDS Resample, Json
CONSTANTS Starts, Caps
VARIABLES n0, cap, log
Init == n0 \in Starts /\ cap \in Caps /\ log = <<>> /\ RInit(n0)
P(good) == IF good THEN "1/2" ELSE "1/10000"
Next == \E good \in BOOLEAN :
          /\ log' = IF rstate = "run" THEN Append(log, good) ELSE log
          /\ More(P(good), "1/1000", cap) \/ Stop(P(good), "1/1000", cap)
          /\ UNCHANGED <<n0, cap>>
vars == <<n0, cap, log, have, tests, rstate>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bounded == have <= (IF n0 >= cap THEN n0 ELSE cap + Batch - 1)
AtLeast == have >= n0 /\ (have - n0) % Batch = 0
StopsAtFirstPass == \A i \in 1..(Len(log) - 1) : ~log[i]
EndsNormalOrFull == rstate = "end" => log[Len(log)] \/ have >= cap
Ends == <>(rstate = "end")
Emit == rstate = "end" => PrintT(ToJson(<<"SCEN", n0, cap, log, have>>))
=============================================================================
