------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* What the caller owns.  `own' gives the content of every input, by name. *)
(* A call names an operation, the inputs it is given and (for fits and     *)
(* predictions) the object it is made on.  Whether it succeeds or fails,   *)
(* the inputs keep their content; what it returns is a function of the     *)
(* operation, the content of the inputs and the state of the object; and   *)
(* no other object changes.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* everything that an outcome may depend on
Cause(own, objs, call) == <<call.op, [n \in call.uses |-> own[n]], IF call.on = 0 THEN "none" ELSE objs[call.on]>>
\* one observed call: own2, objs2 are the inputs and objects after it, out what it returned, memo the outcomes so far
InputsKept(own, own2) == own2 = own
OthersKept(objs, objs2, call) == \A i \in DOMAIN objs : i = call.on \/ objs2[i] = objs[i]
SameOutcome(memo, cause, out) == \A i \in 1..Len(memo) : memo[i][1] = cause => memo[i][2] = out
=============================================================================
