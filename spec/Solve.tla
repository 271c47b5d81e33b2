-------------------------------- MODULE Solve --------------------------------
(* Histories of direct sparse solves in one process.  Each solver keeps the    *)
(* factorization of the last matrix and reuses it for the same matrix only; a  *)
(* failed solve leaves no factorization behind; factorizations may be computed *)
(* ahead and dropped.  Whatever the history, and whatever the other solvers    *)
(* do, every request is answered with the solution of its own system.          *)
EXTENDS GRat, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)      \* [mats, reqs, kinds, depth]; a request is [s: solver, op, m: matrix, x: its solution, t: transposed?, u: dual solution]
VARIABLES hist, cache, out
vars == <<hist, cache, out>>
Mats == Plan.mats
Reqs == Plan.reqs
N(A) == Len(A)
Tr(A) == [i \in 1..N(A) |-> [j \in 1..N(A) |-> A[j][i]]]
Mat(r) == IF r.t THEN Tr(Mats[r.m]) ELSE Mats[r.m]
Apply(A, x) == [i \in 1..N(A) |-> QDot(A[i], x)]
Minor(A, c) == [i \in 1..(N(A) - 1) |-> [j \in 1..(N(A) - 1) |-> A[i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(A) == IF N(A) = 1 THEN A[1][1]
          ELSE LET f(c) == IF A[1][c] = Q0 THEN Q0 ELSE QMul(IF c % 2 = 1 THEN A[1][c] ELSE QNeg(A[1][c]), Det(Minor(A, c))) IN QSumTo(f, N(A))
\* the solution by Cramer's rule
Subst(A, c, b) == [i \in 1..N(A) |-> [j \in 1..N(A) |-> IF j = c THEN b[i] ELSE A[i][j]]]
Cramer(A, b) == [c \in 1..N(A) |-> QDiv(Det(Subst(A, c, b)), Det(A))]
Singular(r) == r.sing
Fail == << >>
None == <<"none">>                        \* a request without an answer
Kind(r) == Plan.kinds[r.s]                \* the matrices a solver is made for
\* the answer obtained with the factorization of matrix F
Answer(F, r) == IF F = Mat(r) THEN r.x ELSE Cramer(F, Apply(Mat(r), r.x))
Init == hist = << >> /\ cache = [s \in 1..Len(Plan.kinds) |-> << >>] /\ out = << >>
Done == Len(hist') = Plan.depth => PrintT("@@" \o ToJson([h |-> hist', sol |-> [i \in 1..Len(out') |-> out'[i] # Fail]]))
\* solve with the cached factorization when it is that of the requested matrix, else factorize first
Solve(k) == LET r == Reqs[k] IN
  /\ Len(hist) < Plan.depth /\ r.op = "solve"
  /\ hist' = Append(hist, k)
  /\ \/ cache[r.s] = Mat(r) /\ UNCHANGED cache /\ out' = Append(out, Answer(cache[r.s], r))
     \/ cache[r.s] # Mat(r) /\ Singular(r) /\ cache' = [cache EXCEPT ![r.s] = << >>] /\ out' = Append(out, Fail)
     \/ cache[r.s] # Mat(r) /\ ~Singular(r) /\ cache' = [cache EXCEPT ![r.s] = Mat(r)] /\ out' = Append(out, Answer(Mat(r), r))
  /\ Done
\* factorize ahead (a failed factorization answers with failure) or drop the factorization
Factor(k) == LET r == Reqs[k] IN
  /\ Len(hist) < Plan.depth /\ r.op = "factor"
  /\ hist' = Append(hist, k)
  /\ cache' = [cache EXCEPT ![r.s] = IF Singular(r) THEN << >> ELSE Mat(r)]
  /\ out' = Append(out, IF Singular(r) THEN Fail ELSE None)
  /\ Done
Free(k) == LET r == Reqs[k] IN
  /\ Len(hist) < Plan.depth /\ r.op = "free" /\ cache[r.s] # << >>
  /\ hist' = Append(hist, k)
  /\ cache' = [cache EXCEPT ![r.s] = << >>] /\ out' = Append(out, None)
  /\ Done
Next == \E k \in 1..Len(Reqs) : Solve(k) \/ Factor(k) \/ Free(k)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Own == \A i \in 1..Len(hist) : LET r == Reqs[hist[i]] IN
         out[i] = IF r.op = "free" THEN None ELSE IF Singular(r) THEN Fail ELSE IF r.op = "factor" THEN None ELSE r.x
CacheIsLast == \A s \in DOMAIN cache : cache[s] # << >> => \E i \in 1..Len(hist) :
                 /\ Reqs[hist[i]].s = s /\ Reqs[hist[i]].op # "free" /\ cache[s] = Mat(Reqs[hist[i]]) /\ ~Singular(Reqs[hist[i]])
                 /\ \A j \in (i + 1)..Len(hist) : Reqs[hist[j]].s = s => Reqs[hist[j]].op # "free" /\ Mat(Reqs[hist[j]]) = cache[s]
Conj(A) == [i \in 1..N(A) |-> [j \in 1..N(A) |-> QConj(A[i][j])]]
Suits(kind, A) == CASE kind = "any" -> TRUE
                    [] kind = "real" -> Conj(A) = A
                    [] kind = "symmetric" -> Tr(A) = A
                    [] kind = "real symmetric" -> Tr(A) = A /\ Conj(A) = A
                    [] kind = "hermitian" -> Tr(A) = Conj(A)
\* checked once: the planned solutions are the only ones, the planned right-hand sides are printed
Systems == hist = << >> => \A k \in 1..Len(Reqs) : LET r == Reqs[k] A == Mat(r) IN
  /\ Suits(Kind(r), A)
  /\ (Det(A) = Q0) <=> Singular(r)
  /\ \A c \in 1..N(A) : Det(Subst(A, c, Apply(A, r.x))) = QMul(Det(A), r.x[c])
  /\ PrintT("@@" \o ToJson([k |-> k, b |-> Apply(A, r.x), g |-> Apply(Tr(A), r.u)]))
=============================================================================
