-------------------------------- MODULE KNum --------------------------------
(* Vectors, matrices and small helpers over exact rationals.               *)
EXTENDS BigRat, Integers, Sequences, FiniteSets, SequencesExt, TLC

Tup(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])         \* eager sequence
MapS(s, f(_)) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
Halfs == "1/2"

\* nearest integer, ties upwards (floor(x + 1/2))
RoundHalfUp(x) == FloorR(Add(x, Halfs))

VAdd(u, v) == <<Add(u[1], v[1]), Add(u[2], v[2]), Add(u[3], v[3])>>
VSub(u, v) == <<Sub(u[1], v[1]), Sub(u[2], v[2]), Sub(u[3], v[3])>>
VScale(c, v) == <<Mul(c, v[1]), Mul(c, v[2]), Mul(c, v[3])>>
VClose(u, v, rt, at) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Close(u[i], v[i], rt, at)
V0 == <<0, 0, 0>>

\* row vector times 3x3 matrix (rows are lattice vectors)
VM(v, M) == TLCEval([j \in 1..3 |-> DotR(v, <<M[1][j], M[2][j], M[3][j]>>)])
Det3(M) == Add(Sub(Mul(M[1][1], Sub(Mul(M[2][2], M[3][3]), Mul(M[2][3], M[3][2]))),
                   Mul(M[1][2], Sub(Mul(M[2][1], M[3][3]), Mul(M[2][3], M[3][1])))),
               Mul(M[1][3], Sub(Mul(M[2][1], M[3][2]), Mul(M[2][2], M[3][1]))))
Inv3(M) ==
  LET d == Det3(M)
      cf(i, j) == LET r1 == IF i = 1 THEN 2 ELSE 1  r2 == IF i = 3 THEN 2 ELSE 3
                      c1 == IF j = 1 THEN 2 ELSE 1  c2 == IF j = 3 THEN 2 ELSE 3
                      m == Sub(Mul(M[r1][c1], M[r2][c2]), Mul(M[r1][c2], M[r2][c1]))
                  IN IF (i + j) % 2 = 0 THEN m ELSE Neg(m)
  IN TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> Div(cf(j, i), d)])])

\* statistics
MeanR(s) == Div(SumR(s), Len(s))
VarR(s) == \* unbiased sample variance
  LET n == Len(s) m == MeanR(s)
  IN Div(Sub(DotR(s, s), Mul(n, Mul(m, m))), n - 1)
CovR(s, t) ==
  LET n == Len(s) IN Div(Sub(DotR(s, t), Div(Mul(SumR(s), SumR(t)), n)), n - 1)

\* n x n matrices as sequences of rows
Col(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])
Transp(M) == TLCEval([j \in 1..Len(M[1]) |-> Col(M, j)])
MV(M, v) == TLCEval([i \in 1..Len(M) |-> DotR(M[i], v)])
MM(A, B) == LET BT == Transp(B) IN
            TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(BT) |-> DotR(A[i], BT[j])])])
MSub(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> Sub(A[i][j], B[i][j])])])
AddDiag(A, c) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |-> IF i = j THEN Add(A[i][j], c) ELSE A[i][j]])])

\* Cholesky-like elimination (Schur complements).  The
\* matrix is positive definite iff every pivot is positive; the pivots are
\* produced one by one and the elimination stops at the first bad one.
\* Large matrices (more than Large rows) are eliminated to a hundred digits, far beyond anything compared here.
Large == 14
Keep(x, big) == IF big THEN Sig(x, 100) ELSE x
Schur(A, big) ==
  LET n == Len(A) IN
  TLCEval([i \in 1..(n - 1) |-> LET q == Keep(Div(A[i + 1][1], A[1][1]), big) IN TLCEval([j \in 1..(n - 1) |->
     Keep(Sub(A[i + 1][j + 1], Mul(q, A[1][j + 1])), big)])])
PosDef(A) ==
  LET step(st, i) == IF ~st.ok THEN st
                     ELSE IF ~Lt(0, st.m[1][1]) THEN [ok |-> FALSE, m |-> st.m]
                     ELSE [ok |-> TRUE, m |-> IF Len(st.m) = 1 THEN st.m ELSE Schur(st.m, Len(A) > Large)]
  IN FoldLeft(step, [ok |-> TRUE, m |-> A], [i \in 1..Len(A) |-> i]).ok

\* solve A X = B (A nonsingular with nonzero leading minors, e.g. positive definite), B an n x m matrix:
\* Gauss-Jordan on the augmented matrix.
Solve(A, B) ==
  LET n == Len(A) m == Len(B[1])
      aug == TLCEval([i \in 1..n |-> A[i] \o B[i]])
      elim(M, k) == LET pr == LET p == M[k][k] IN TLCEval([j \in 1..(n + m) |-> Keep(Div(M[k][j], p), n > Large)])
                    IN TLCEval([i \in 1..n |-> IF i = k THEN pr
                         ELSE LET f == M[i][k] IN TLCEval([j \in 1..(n + m) |-> Keep(Sub(M[i][j], Mul(f, pr[j])), n > Large)])])
      res == FoldLeft(elim, aug, [i \in 1..n |-> i])
  IN TLCEval([i \in 1..n |-> SubSeq(res[i], n + 1, n + m)])

\* every k-th element, starting with the first
Every(s, k) == LET n == (Len(s) + k - 1) \div k IN TLCEval([i \in 1..n |-> s[1 + (i - 1) * k]])
=============================================================================
