---------------------------- MODULE Sim_Session ----------------------------
(* Generates histories (random walks of the session machine) for replay.   *)
EXTENDS Session, Json
CONSTANT Depth
VARIABLES st, h
PathFn(n) == CASE n = "a" -> "a.hdf" [] n = "a.txt" -> "a.hdf" [] n = "a.hdf" -> "a.hdf"
               [] n = "b.c/a" -> "b.c/a.hdf" [] n = "b.c/a.v1" -> "b.c/a.hdf"
               [] n = "d/run.300K.x" -> "d/run.300K.hdf" [] n = "d/run.300K.hdf" -> "d/run.300K.hdf"
               [] n = ".a" -> ".a.hdf" [] n = "d/.b.h5" -> "d/.b.hdf"
SInit == st = S0 /\ h = <<>>
\* building over an object, and reading, are less interesting than the rest
Worth(x) == CASE x.op = "build" -> st.objs[x.o] = Empty \/ RandomElement(1..4) = 1
              [] x.op = "load" -> Held(st.files[PathOf(x.a)]) \/ RandomElement(1..12) = 1
              [] x.op = "save" -> ~Held(st.files[PathOf(x.a)]) \/ RandomElement(1..3) = 1
              [] x.op = "touch" -> h # <<>> /\ RandomElement(1..4) = 1
              [] x.op = "drop" -> RandomElement(1..4) = 1
              [] x.op = "noise" -> x.o = 1 /\ h # <<>>
              [] OTHER -> TRUE
SNext == \/ /\ Len(h) < Depth
            /\ \E x \in Ops : Callable(st, x) /\ Worth(x) /\ st' = Apply(st, x) /\ h' = Append(h, x)
         \/ /\ Len(h) = Depth
            /\ PrintT(ToJson(<<"SCEN", h>>)) /\ h' = Append(h, h[1]) /\ st' = st
=============================================================================
