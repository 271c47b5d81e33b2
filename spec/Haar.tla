------------------------------- MODULE Haar -------------------------------
(* Randomly initialised meshes.  Every coupler draws its split ratio s (the     *)
(* power fraction that crosses from top to bottom) independently from a Beta    *)
(* distribution, every phase is uniform.  The phase in front of a coupler makes *)
(* the interference of its two arms average out, so the first and second        *)
(* moments of the powers on the rails obey an exact recurrence, one coupler at  *)
(* a time:                                                                      *)
(*    m[i]    = E |a_i|^2            M[i][j] = E |a_i|^2 |a_j|^2                 *)
(* A behaviour sends one unit of power into one rail and crosses all couplers.  *)
(* A universal mesh must end with the moments of a Haar-random unitary; a tree  *)
(* (crossed backward from its last rail) with those of a uniformly random       *)
(* vector.  The split-ratio distributions are those of the specification:       *)
(* Beta(inputs above the top arm, inputs above the bottom arm) in trees and     *)
(* cascades of trees, Beta(|I| + |O| - n - 1, 1) in a rectangle, I and O being   *)
(* the rails in the two light cones of the coupler.                             *)
EXTENDS Arch, GRat, TLC, Json, IOUtils
CONSTANTS MaxN
VARIABLES kind, n, from,   \* architecture, size, rail the light enters
          cs,              \* its couplers in order, with their split parameters
          k,               \* couplers crossed
          m, M, emitted
vars == <<kind, n, from, cs, k, m, M, emitted>>
HKinds == {"tree", "chain", "cascade", "triangular", "rectangular"}
Back(kd) == kd \in {"tree", "chain"}

\* couplers in the order light meets them
Ordered(kd, sz) == LET r == Ref(kd, sz) IN
  LET colset(c) == SelectSeq(r.nodes, LAMBDA d : d.col = c)
      Cat[c \in 0..r.ncols] == IF c = 0 THEN << >> ELSE Cat[c - 1] \o colset(c - 1)
  IN Cat[r.ncols]
\* light cones of coupler q of a list of couplers: rails it can be reached from, rails it can reach
RECURSIVE Cone(_, _, _, _)
Cone(nodes, q, step, rails) ==
  IF q < 1 \/ q > Len(nodes) THEN rails
  ELSE Cone(nodes, q + step, step,
            IF nodes[q].top \in rails \/ nodes[q].bot \in rails THEN rails \cup {nodes[q].top, nodes[q].bot} ELSE rails)
InCone(nodes, q) == Cone(nodes, q, -1, {nodes[q].top, nodes[q].bot})
OutCone(nodes, q) == Cone(nodes, q, 1, {nodes[q].top, nodes[q].bot})
Split(kd, sz, nodes, q) ==
  IF kd = "rectangular" THEN <<Cardinality(InCone(nodes, q)) + Cardinality(OutCone(nodes, q)) - sz - 1, 1>>
  ELSE <<Len(nodes[q].td) + 1, Len(nodes[q].bd) + 1>>

\* moments of Beta(a, b)
Fr(p, d) == QNorm(p, 0, d)
S1(x) == Fr(x[1], x[1] + x[2])
R1(x) == Fr(x[2], x[1] + x[2])
S2(x) == Fr(x[1] * (x[1] + 1), (x[1] + x[2]) * (x[1] + x[2] + 1))
R2(x) == Fr(x[2] * (x[2] + 1), (x[1] + x[2]) * (x[1] + x[2] + 1))
SR(x) == Fr(x[1] * x[2], (x[1] + x[2]) * (x[1] + x[2] + 1))

Rails == 0..(n - 1)
Couplers(kd, sz) == LET nodes == TLCEval(Ordered(kd, sz)) IN
  [q \in 1..Len(nodes) |-> LET x == Split(kd, sz, nodes, q) IN
     [id |-> nodes[q].id, top |-> nodes[q].top, bot |-> nodes[q].bot, a |-> x[1], b |-> x[2]]]
Init == /\ kind \in HKinds /\ n \in 2..MaxN /\ from \in 0..(n - 1)
        /\ (Back(kind) => from = n - 1)
        /\ k = 0 /\ emitted = FALSE /\ cs = TLCEval(Couplers(kind, n))
        /\ m = [i \in 0..(n - 1) |-> IF i = from THEN Q1 ELSE Q0]
        /\ M = [i \in 0..(n - 1) |-> [j \in 0..(n - 1) |-> IF i = from /\ j = from THEN Q1 ELSE Q0]]
Two == QInt(2)
Cross ==
  /\ k < Len(cs)
  /\ LET q == IF Back(kind) THEN Len(cs) - k ELSE k + 1
         p == cs[q].top
         b == cs[q].bot
         x == <<cs[q].a, cs[q].b>>
         pp == M[p][p]
         pb == M[p][b]
         bb == M[b][b]
         \* s^2 pp + (1-s)^2 bb + 2 s(1-s) pb, plus the mean square 2 s(1-s) pb of the interference
         x4 == QMul(QMul(QInt(4), SR(x)), pb)
         Mbb == QAdd(QAdd(QMul(S2(x), pp), QMul(R2(x), bb)), x4)
         Mpp == QAdd(QAdd(QMul(R2(x), pp), QMul(S2(x), bb)), x4)
         Mpb == QSub(QAdd(QMul(SR(x), QAdd(pp, bb)), QMul(QAdd(S2(x), R2(x)), pb)), QMul(QMul(Two, SR(x)), pb))
         up(u, v) == QAdd(QMul(S1(x), v), QMul(R1(x), u))      \* top output from top u, bottom v
         dn(u, v) == QAdd(QMul(S1(x), u), QMul(R1(x), v))
     IN /\ m' = [m EXCEPT ![p] = up(m[p], m[b]), ![b] = dn(m[p], m[b])]
        /\ M' = [i \in Rails |-> [j \in Rails |->
             IF i = p /\ j = p THEN Mpp ELSE IF i = b /\ j = b THEN Mbb
             ELSE IF {i, j} = {p, b} THEN Mpb
             ELSE IF i = p THEN up(M[p][j], M[b][j]) ELSE IF i = b THEN dn(M[p][j], M[b][j])
             ELSE IF j = p THEN up(M[i][p], M[i][b]) ELSE IF j = b THEN dn(M[i][p], M[i][b])
             ELSE M[i][j]]]
  /\ k' = k + 1
  /\ UNCHANGED <<kind, n, from, cs, emitted>>
Emit ==
  /\ k = Len(cs) /\ ~emitted
  /\ emitted' = TRUE
  /\ IF from # n - 1 THEN TRUE ELSE
     PrintT("@@" \o ToJson([kind |-> kind, n |-> n, mean |-> Fr(1, n), square |-> Fr(2, n * (n + 1)),
        nodes |-> cs]))
  /\ UNCHANGED <<kind, n, from, cs, k, m, M>>
Next == Cross \/ Emit
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* power is conserved in the mean and in the mean square
Conserved == /\ QSumTo(LAMBDA i : m[i - 1], n) = Q1
             /\ QSumTo(LAMBDA i : QSumTo(LAMBDA j : M[i - 1][j - 1], n), n) = Q1
\* the marginals of the second moments are the first
Consistent == \A i \in Rails : QSumTo(LAMBDA j : M[i][j - 1], n) = m[i]
\* Haar: every rail gets 1/n, and pairs of rails the moments of a uniformly random vector
HaarAtEnd == k = Len(cs) =>
  \A i \in Rails : m[i] = Fr(1, n) /\ \A j \in Rails : M[i][j] = Fr(IF i = j THEN 2 ELSE 1, n * (n + 1))
\* split parameters are positive
Positive == \A q \in 1..Len(cs) : cs[q].a >= 1 /\ cs[q].b >= 1
=============================================================================
