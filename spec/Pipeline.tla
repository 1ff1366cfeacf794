------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* From trajectory frames to displacement observations.                    *)
(*                                                                         *)
(* An input `c' (the arguments of one analysis) is a record:               *)
(*   frames   sequence of [s |-> fractional coordinates per atom,          *)
(*            L |-> 3x3 lattice, rows are the cell vectors]                *)
(*   wrapf    the reader folds coordinates into the cell (ASE)             *)
(*   species  sequence of names, one per atom                              *)
(*   subT, subA   trajectory and atom sub-sampling                         *)
(*   mode     "specie" | "index" | "mol";   names / idx / mols, masses     *)
(*   fwgiven, fw  framework list (0-based; 1-based with molecules)         *)
(*   ts, skip, unit   time step, step skip, conversion to picoseconds      *)
(*   minset, mindt, maxset, maxdt, nsteps, spacing, sampling               *)
(*   kind     "frames", or "disp": the base parser, which is given the     *)
(*            displacement rows of all atoms (disp) instead of frames      *)
(*   lead     the file readers repeat the first frame (see the deviation   *)
(*            below)                                                       *)
(*                                                                         *)
(* The stages are the actions of the machine at the end of the module; the *)
(* operators before it say what each stage yields.                         *)
(***************************************************************************)
EXTENDS KNum

----------------------------------------------------------------------------
(* Reading: frame and atom sub-sampling.                                   *)
UsedFrames(c) == Every(c.frames, c.subT)
AtomIds(c) == Every([i \in 1..Len(c.species) |-> i], c.subA)      \* 1-based ids of the atoms that exist
FracOf(c, f, a) == IF c.wrapf THEN MapS(f.s[a], LAMBDA x : Sub(x, FloorR(x))) ELSE f.s[a]

(* DEVIATION (known finding F17): the file readers put the first frame     *)
(* twice, so that the machine sees one frame more than the file has.       *)
WithLead(c, fs) == IF c.lead THEN <<fs[1]>> \o fs ELSE fs

----------------------------------------------------------------------------
(* Selection.  Atoms are numbered by position in AtomIds (1-based here).   *)
NAtoms(c) == Len(AtomIds(c))
NameOf(c, i) == c.species[AtomIds(c)[i]]
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
IndexSeq(n) == [i \in 1..n |-> i]
Mobile(c) ==
  CASE c.mode = "specie" -> SelectSeq(IndexSeq(NAtoms(c)), LAMBDA i : InSeq(NameOf(c, i), c.names))
    [] c.mode = "index"  -> MapS(c.idx, LAMBDA i : i + 1)
    [] c.mode = "mol"    -> IndexSeq(Len(c.mols))
    [] OTHER             -> <<>>
MolAtoms(c) == UNION {{c.mols[m][i] : i \in 1..Len(c.mols[m])} : m \in 1..Len(c.mols)}
FrameworkAtoms(c) ==
  IF c.fwgiven THEN MapS(c.fw, LAMBDA i : IF c.mode = "mol" THEN i ELSE i + 1)
  ELSE IF c.mode = "mol" THEN SelectSeq(IndexSeq(NAtoms(c)), LAMBDA i : i \notin MolAtoms(c))
  ELSE SelectSeq(IndexSeq(NAtoms(c)), LAMBDA i : ~InSeq(i, Mobile(c)))
SelectionError(c) ==
  CASE c.subA # 1 /\ c.mode \in {"index", "mol"} -> TRUE     \* indices of which system?
    [] c.mode = "specie" -> Len(Mobile(c)) = 0
    [] c.mode = "mol" -> \/ \E m \in 1..Len(c.mols) : Len(c.mols[m]) # Len(c.mols[1])
                         \/ c.massgiven /\ Len(c.masses) # Len(c.mols[1])
    [] c.mode = "none" -> TRUE                 \* nothing was asked for
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Molecules: centre of mass with the nearest images of the first atom.    *)
MinImg1(x) == Sub(x, RoundHalfUp(x))
Weights(c) == IF c.massgiven THEN c.masses ELSE [i \in 1..Len(c.mols[1]) |-> 1]
Centre(c, f, mol) ==
  LET pos(i) == FracOf(c, f, AtomIds(c)[mol[i]])
      ref == pos(1)
      off == Tup(Len(mol), LAMBDA i : LET p == pos(i) IN
                <<MinImg1(Sub(p[1], ref[1])), MinImg1(Sub(p[2], ref[2])), MinImg1(Sub(p[3], ref[3]))>>)
      wt == Weights(c)
      tot == SumR(wt)
  IN Tup(3, LAMBDA k : LET x == Add(ref[k], Div(DotR(wt, Tup(Len(mol), LAMBDA i : off[i][k])), tot))
                       IN Sub(x, FloorR(x)))

(* Tracks: the particles followed, each a sequence of fractional positions *)
(* - mobile ones (atoms or molecule centres), then framework atoms.        *)
TrackIds(c) ==
  IF c.mode = "mol" THEN [m \in 1..Len(c.mols) |-> <<"m", m>>] \o MapS(FrameworkAtoms(c), LAMBDA a : <<"a", a>>)
  ELSE MapS(Mobile(c), LAMBDA a : <<"a", a>>) \o MapS(FrameworkAtoms(c), LAMBDA a : <<"a", a>>)
PosOf(c, f, t) == IF t[1] = "m" THEN Centre(c, f, c.mols[t[2]]) ELSE FracOf(c, f, AtomIds(c)[t[2]])

----------------------------------------------------------------------------
(* Unwrapping: each step is the change in Cartesian position taken to its  *)
(* nearest image in the cell of the later frame; steps accumulate.         *)
StepVec(p, q, Linv, L) ==      \* Cartesian positions p -> q, cell L of the later frame
  LET d == VSub(q, p)
      fr == VM(d, Linv)
      n == <<RoundHalfUp(fr[1]), RoundHalfUp(fr[2]), RoundHalfUp(fr[3])>>
  IN VSub(d, VM(n, L))
Steps(carts, Ls, Linvs) == Tup(Len(carts) - 1, LAMBDA t : StepVec(carts[t], carts[t + 1], Linvs[t + 1], Ls[t + 1]))
Cumulate(vs) == \* running sums
  FoldLeft(LAMBDA acc, v : Append(acc, IF acc = <<>> THEN v ELSE VAdd(acc[Len(acc)], v)), <<>>, vs)

----------------------------------------------------------------------------
(* Drift: the plain average of the framework displacements is subtracted.  *)
Corrected(mob, frw) ==        \* sequences (per particle) of displacement sequences
  IF Len(frw) = 0 THEN mob
  ELSE LET T == Len(frw[1])
           avg == Tup(T, LAMBDA t : Tup(3, LAMBDA k :
                     Div(SumR(Tup(Len(frw), LAMBDA a : frw[a][t][k])), Len(frw))))
       IN Tup(Len(mob), LAMBDA a : Tup(T, LAMBDA t : VSub(mob[a][t], avg[t])))

----------------------------------------------------------------------------
(* Time intervals, in whole steps.  n = number of displacement rows.       *)
StepTime(c) == Mul(c.ts, c.skip * c.subT)
ToSteps(x, st) == LET r == Div(x, st) m == RoundHalfUp(r)
                  IN IF Leq(AbsR(Sub(r, m)), "1e-7") THEN FloorI(m) ELSE FloorI(r)
MinI(c) == IF c.minset THEN ToSteps(c.mindt, StepTime(c)) ELSE 1
MaxI(c, n) == IF c.maxset THEN ToSteps(c.maxdt, StepTime(c)) ELSE n
KMin(c) == IF MinI(c) = 0 THEN 1 ELSE MinI(c)
NPoints(c, n) == IF c.nsteps > n - MinI(c) + 1 THEN n - MinI(c) + 1 ELSE c.nsteps
IntervalError(c, n) == MinI(c) >= n \/ c.spacing \notin {"linear", "logarithmic"}
(* i-th ideal value rounded down, i = 0..p-1; eps -1/+1 gives the two ways *)
(* a value within rounding error of a whole number may come out.           *)
IdealLin(c, n, p, i, eps) ==
  IF p = 1 THEN KMin(c)
  ELSE FloorI(Add(Add(KMin(c), Div(i * (MaxI(c, n) - KMin(c)), p - 1)), Mul(eps, "1e-7")))
(* geometric: floor(e) with e^(p-1) = KMin^(p-1-i) * MaxI^i                *)
IdealLog(c, n, p, i, eps) ==
  IF p = 1 THEN KMin(c)
  ELSE LET pw == Mul(PowR(KMin(c), p - 1 - i), PowR(MaxI(c, n), i))
           tol == PowR(Add(1, Mul(eps, "1e-9")), p - 1)
           tgt == Mul(pw, tol)
           lo == IF KMin(c) <= MaxI(c, n) THEN KMin(c) ELSE MaxI(c, n)
           hi == IF KMin(c) <= MaxI(c, n) THEN MaxI(c, n) ELSE KMin(c)
           cand == {k \in (lo - 1)..(hi + 1) : Leq(PowR(k, p - 1), tgt)}
       IN CHOOSE k \in cand : \A j \in cand : j <= k
Ideal(c, n, p, i, eps) == IF c.spacing = "linear" THEN IdealLin(c, n, p, i, eps) ELSE IdealLog(c, n, p, i, eps)
IntervalClauses(c, n, ks) ==
  LET p == NPoints(c, n)
      lo == Tup(p, LAMBDA i : Ideal(c, n, p, i - 1, -1))
      hi == Tup(p, LAMBDA i : Ideal(c, n, p, i - 1, 1))
      obs == {ks[j] : j \in 1..Len(ks)}
  IN << <<"increasing", \A i \in 1..(Len(ks) - 1) : ks[i] < ks[i + 1]>>,
        <<"count", Len(ks) >= 1 /\ Len(ks) <= p>>,
        <<"first", Len(ks) >= 1 /\ ks[1] = KMin(c)>>,
        <<"last", Len(ks) >= 1 /\ (p > 1 => ks[Len(ks)] = MaxI(c, n))>>,
        <<"covered", \A i \in 1..p : lo[i] \in obs \/ hi[i] \in obs>>,
        <<"spacing", \A k \in obs : \E i \in 1..p : k = lo[i] \/ k = hi[i] \/ (i = p /\ k = MaxI(c, n))>> >>
(* exactly one reading when no value is within rounding error of an integer *)
IdealIntervals(c, n) ==
  LET p == NPoints(c, n) IN {Ideal(c, n, p, i, 0) : i \in 0..(p - 1)}

----------------------------------------------------------------------------
(* Observation windows at an interval of k steps out of n rows.            *)
NObs(c, n, k) == IF c.sampling = "single-origin" THEN 1 ELSE n - k + 1
Window(pos, k, o) ==      \* pos: displacement rows of one particle; o-th window (1-based)
  IF o = 1 THEN pos[k] ELSE VSub(pos[k + o - 1], pos[o - 1])
CeilDiv(a, b) == (a + b - 1) \div b
Independent(c, n, N, k) == N * CeilDiv(NObs(c, n, k), k)
Kept(c, n, N, ks) == SelectSeq(ks, LAMBDA k : Independent(c, n, N, k) > 1)
NIndep(c, n, N, k) == IF c.sampling = "single-origin" THEN N ELSE Div(N * n, k)
SamplingError(c) == c.sampling \notin {"single-origin", "multi-origin"}

(* Memory needed by the displacement arrays (multi-origin count), in bytes *)
Bytes(c, n, N, ks, itemsize) ==
  Mul(itemsize, SumR(Tup(Len(ks), LAMBDA i : N * 3 * (n - ks[i] + 1))))

----------------------------------------------------------------------------
(* The machine.                                                            *)
VARIABLES stage, inp, tracks, carts, cells, rows

pvars == <<stage, inp, tracks, carts, cells, rows>>

PInit(c) == /\ stage = "read" /\ inp = c
            /\ tracks = <<>> /\ carts = <<>> /\ cells = <<>> /\ rows = <<>>

ReadRows ==                              \* the base parser is given accumulated displacements
  /\ stage = "read" /\ inp.kind = "disp"
  /\ rows' = MapS(Mobile(inp) \o FrameworkAtoms(inp), LAMBDA a : inp.disp[a])
  /\ stage' = "drift"
  /\ UNCHANGED <<inp, tracks, carts, cells>>

Read ==                                  \* frames, lattices and the atoms that exist
  /\ stage = "read" /\ inp.kind = "frames"
  /\ stage' = IF SelectionError(inp) THEN "error" ELSE "select"
  /\ cells' = LET fs == WithLead(inp, UsedFrames(inp)) IN MapS(fs, LAMBDA f : f.L)
  /\ UNCHANGED <<inp, tracks, carts, rows>>

Select ==                                \* which particles are followed, and where they are
  /\ stage = "select"
  /\ tracks' = TrackIds(inp)
  /\ carts' = LET fs == WithLead(inp, UsedFrames(inp)) ids == TrackIds(inp)
              IN Tup(Len(ids), LAMBDA i : Tup(Len(fs), LAMBDA t : VM(PosOf(inp, fs[t], ids[i]), fs[t].L)))
  /\ stage' = "unwrap"
  /\ UNCHANGED <<inp, cells, rows>>

Unwrap ==                                \* accumulated displacement rows per particle
  /\ stage = "unwrap"
  /\ rows' = LET invs == MapS(cells, LAMBDA L : Inv3(L))
             IN Tup(Len(carts), LAMBDA i : Cumulate(Steps(carts[i], cells, invs)))
  /\ stage' = "drift"
  /\ UNCHANGED <<inp, tracks, carts, cells>>

NMobile == Len(Mobile(inp))
Drift ==                                 \* mobile particles relative to the framework
  /\ stage = "drift"
  /\ rows' = Corrected(SubSeq(rows, 1, NMobile), SubSeq(rows, NMobile + 1, Len(rows)))
  /\ stage' = IF IntervalError(inp, Len(rows[1])) THEN "error" ELSE "observe"
  /\ UNCHANGED <<inp, tracks, carts, cells>>

PNext == ReadRows \/ Read \/ Select \/ Unwrap \/ Drift
=============================================================================
