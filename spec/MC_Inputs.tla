----------------------------- MODULE MC_Inputs -----------------------------
(***************************************************************************)
(* An implementation that works on what it is given in steps: it takes its *)
(* inputs (by reference, or a copy), rewrites its working copy, then       *)
(* returns an object that may keep referring to an input, or fails on the  *)
(* way.  Cells of memory are numbered; inputs are the first cells.         *)
(* Discipline = "copy": only cells the call made itself are written.       *)
(* Then the three clauses of Inputs hold in every history.  (With          *)
(* Discipline = "alias" TLC finds the violation: MC_Inputs_alias.cfg.)     *)
(***************************************************************************)
EXTENDS Inputs
CONSTANTS NIn, NCalls, Discipline, Ops
VARIABLES mem,    \* content of memory cells
          objs,   \* objects: cell each refers to
          pc, call, work, memo, bad
vars == <<mem, objs, pc, call, work, memo, bad>>
In == 1..NIn
Own == [n \in In |-> mem[n]]
Fn(op, v) == IF op = "double" THEN 2 * v ELSE v + 1
NoCall == [op |-> "", uses |-> {}, on |-> 0]
Init == mem = [n \in In |-> n] /\ objs = <<>> /\ pc = "idle" /\ call = NoCall /\ work = 0 /\ memo = <<>> /\ bad = FALSE
Before == [own |-> [n \in In |-> n]]
Content == [i \in 1..Len(objs) |-> mem[objs[i]]]
\* take one input into a working cell
Start == \E op \in Ops, n \in In, ref \in BOOLEAN :
   /\ pc = "idle" /\ Len(memo) < NCalls
   /\ call' = [op |-> op, uses |-> {n}, on |-> 0]
   /\ IF ref THEN work' = n /\ UNCHANGED mem
      ELSE mem' = Append(mem, mem[n]) /\ work' = Len(mem) + 1
   /\ pc' = "work" /\ UNCHANGED <<objs, memo, bad>>
\* write: in place only if the cell is the call's own, otherwise into a new cell
Work == /\ pc = "work"
        /\ LET v == Fn(call.op, mem[work]) IN
           IF Discipline = "alias" \/ (work > NIn /\ \A i \in 1..Len(objs) : objs[i] # work)
           THEN mem' = [mem EXCEPT ![work] = v] /\ UNCHANGED work
           ELSE mem' = Append(mem, v) /\ work' = Len(mem) + 1
        /\ pc' = "done" /\ UNCHANGED <<objs, call, memo, bad>>
Fail == /\ pc \in {"work", "done"} /\ pc' = "idle" /\ call' = NoCall
        \* its cells are free again
        /\ LET top == CHOOSE m \in 1..Len(mem) : m >= NIn /\ (\A i \in 1..Len(objs) : objs[i] <= m)
                                               /\ (m = NIn \/ \E i \in 1..Len(objs) : objs[i] = m)
           IN mem' = SubSeq(mem, 1, top)
        /\ work' = 0 /\ UNCHANGED <<objs, memo, bad>>
Return == /\ pc = "done" /\ pc' = "idle" /\ call' = NoCall
          /\ LET cause == Cause(Before.own, Content, call) out == mem[work]
             IN /\ bad' = (bad \/ ~SameOutcome(memo, cause, out) \/ out # Fn(call.op, CHOOSE n \in call.uses : TRUE))
                /\ memo' = Append(memo, <<cause, out>>)
          /\ objs' = Append(objs, work) /\ work' = 0 /\ UNCHANGED mem
Next == Start \/ Work \/ Fail \/ Return
Spec == Init /\ [][Next]_vars
Kept == InputsKept(Before.own, Own)
Outcomes == ~bad
\* objects never change after they were returned
Steady == [][\A i \in 1..Len(objs) : mem'[objs'[i]] = mem[objs[i]]]_vars
=============================================================================
