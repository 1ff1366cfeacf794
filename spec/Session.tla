------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The life of analysis objects: building, fitting, failing, predicting,   *)
(* saving, loading, copying through dictionaries.                          *)
(*                                                                         *)
(* An object is <<>> (empty slot) or [data, fit, restored]: `data' names   *)
(* the input and options it was built from, `fit' the arguments of the     *)
(* last successful fit ("none" before).  All that a user can observe of an *)
(* object is a function of these two: that is what the specification says. *)
(* `restored' only records that a file or dictionary was involved.         *)
(* A file holds an object; it is never changed once written, except that   *)
(* the user may remove it.  A file may also be something else of the       *)
(* user's (Foreign), which is kept just the same and cannot be loaded.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Slots,      \* number of object slots
          Data,       \* names of inputs
          Settings,   \* names of fit arguments
          Names,      \* file names a user may give
          PathOf(_)   \* the file a name denotes
Empty == <<>>
NoFit == "none"
Obj(d) == [data |-> d, fit |-> NoFit, restored |-> FALSE]
Held(o) == o # Empty
Foreign == [data |-> "foreign", fit |-> "none", restored |-> FALSE]
Paths == {PathOf(n) : n \in Names}
S0 == [objs |-> [i \in 1..Slots |-> Empty], files |-> [p \in Paths |-> Empty], reg |-> Empty]

\* operations: a tuple of the name and its arguments
Ops ==      [op : {"build"}, o : 1..Slots, a : Data]
  \union [op : {"fit"}, o : 1..Slots, a : Settings]
  \union [op : {"badfit", "read", "predict", "take", "from", "noise"}, o : 1..Slots, a : {""}]
  \union [op : {"save", "load"}, o : 1..Slots, a : Names]
  \union [op : {"touch", "drop"}, o : {1}, a : Paths]
\* what makes sense at all (calls on an empty slot cannot be made)
Callable(st, x) == CASE x.op \in {"build", "load", "noise"} -> TRUE
                     [] x.op = "touch" -> ~Held(st.files[x.a])
                     [] x.op = "drop" -> Held(st.files[x.a])
                     [] x.op = "from" -> Held(st.reg)
                     [] OTHER -> Held(st.objs[x.o])
\* does the call fail?
Fails(st, x) ==
  CASE x.op = "badfit" -> TRUE
    [] x.op = "predict" -> st.objs[x.o].fit = NoFit
    [] x.op = "save" -> Held(st.files[PathOf(x.a)])
    [] x.op = "load" -> ~Held(st.files[PathOf(x.a)]) \/ st.files[PathOf(x.a)] = Foreign
    [] OTHER -> FALSE
\* the next state; a failing call changes nothing
Apply(st, x) ==
  IF Fails(st, x) THEN st
  ELSE CASE x.op = "build" -> [st EXCEPT !.objs[x.o] = Obj(x.a)]
         [] x.op = "fit" -> [st EXCEPT !.objs[x.o].fit = x.a]
         [] x.op = "save" -> [st EXCEPT !.files[PathOf(x.a)] = st.objs[x.o]]
         [] x.op = "load" -> [st EXCEPT !.objs[x.o] = [st.files[PathOf(x.a)] EXCEPT !.restored = TRUE]]
         [] x.op = "take" -> [st EXCEPT !.reg = st.objs[x.o]]
         [] x.op = "from" -> [st EXCEPT !.objs[x.o] = [st.reg EXCEPT !.restored = TRUE]]
         [] x.op = "touch" -> [st EXCEPT !.files[x.a] = Foreign]
         [] x.op = "drop" -> [st EXCEPT !.files[x.a] = Empty]
         [] OTHER -> st
=============================================================================
