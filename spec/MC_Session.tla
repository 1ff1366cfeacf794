----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the session machine.  The ghost variable      *)
(* `origin' follows each object by name only: which build it descends from *)
(* and which fit was the last successful one on the way.                   *)
(***************************************************************************)
EXTENDS Session, Json
VARIABLES st, last
vars == <<st, last>>
PathFn(n) == CASE n = "a" -> "a.hdf" [] n = "a.txt" -> "a.hdf" [] n = "b.c/a" -> "b.c/a.hdf" [] OTHER -> "other.hdf"
Init == st = S0 /\ last = [op |-> "init", o |-> 1, a |-> ""]
Next == \E x \in Ops : Callable(st, x) /\ st' = Apply(st, x) /\ last' = x
Spec == Init /\ [][Next]_vars
\* results exist exactly after a successful fit on the way; only known inputs and arguments occur
Sane == \A i \in 1..Slots : Held(st.objs[i]) => st.objs[i].data \in Data /\ st.objs[i].fit \in Settings \union {NoFit}
\* a file, once there, never changes, unless its owner removes it; nothing but saving and the owner makes one
FilesKept == [][\A p \in Paths : (Held(st.files[p]) /\ ~(last'.op = "drop" /\ last'.a = p)) => st'.files[p] = st.files[p]]_vars
FilesMade == [][\A p \in Paths : (st'.files[p] # st.files[p]) =>
                  \/ last'.op = "save" /\ PathOf(last'.a) = p /\ ~Held(st.files[p]) /\ st'.files[p] = st.objs[last'.o]
                  \/ last'.op \in {"touch", "drop"} /\ last'.a = p]_vars
\* only what was saved can be loaded
NoForeign == \A i \in 1..Slots : st.objs[i] # Foreign /\ (Held(st.objs[i]) => st.objs[i].data # "foreign")
\* a call on one object never changes another, and a failing call changes nothing
OthersKept == [][\A i \in 1..Slots : i # last'.o => st'.objs[i] = st.objs[i]]_vars
FailKeeps == [][Fails(st, last') => st' = st]_vars
\* a fit changes only the fit, and only to its own arguments
FitOnly == [][last'.op = "fit" => /\ st'.objs[last'.o].data = st.objs[last'.o].data
                                  /\ st'.objs[last'.o].fit = last'.a /\ st'.files = st.files /\ st'.reg = st.reg]_vars
\* restoring gives the object that was stored
RestoreExact == [][(last'.op = "load" /\ ~Fails(st, last')) =>
                     /\ st'.objs[last'.o].data = st.files[PathOf(last'.a)].data
                     /\ st'.objs[last'.o].fit = st.files[PathOf(last'.a)].fit]_vars
View == st
=============================================================================
