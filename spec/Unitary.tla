------------------------------ MODULE Unitary ------------------------------
(* Exact unitary targets.  A behaviour starts at the identity and applies     *)
(* elementary lossless operations to the rails (swaps, phases, ideal and      *)
(* Pythagorean splitters); every matrix reached is exactly unitary, and       *)
(* includes identities, permutations, diagonal, block, real and dense ones.   *)
EXTENDS Ring, Optics, Json, IOUtils
CONSTANTS MaxLen, Sizes, EmitAll, Budget5
VARIABLES n, m, len, k5, over
vars == <<n, m, len, k5, over>>
Init == n \in Sizes /\ m = Ident(n) /\ len = 0 /\ k5 = 0 /\ over = FALSE

SetRow(x, r, row) == [x EXCEPT ![r] = row]
Swap(a, b) == m' = [m EXCEPT ![a] = m[b], ![b] = m[a]]
Phase(r, p) == m' = [m EXCEPT ![r] = ScaleRow(m[r], p)]
Split(a, b, c, s) == m' = [m EXCEPT ![a] = SplitTop(c, s, m[a], m[b]), ![b] = SplitBot(c, s, m[a], m[b])]
\* real rotation, so that real orthogonal matrices are reached
Rotate(a, b, c, s) == m' = [m EXCEPT ![a] = [k \in 1..n |-> Sub(Mul(c, m[a][k]), Mul(s, m[b][k]))],
                                     ![b] = [k \in 1..n |-> Add(Mul(s, m[a][k]), Mul(c, m[b][k]))]]
R2 == <<0, 1, 0, -1, 1, 0>>       \* 1/sqrt 2
Fifth(a) == <<a, 0, 0, 0, 0, 1>>
Free == k5' = k5
Cost == k5 < Budget5 /\ k5' = k5 + 1
Step ==
  /\ ~over /\ len < MaxLen
  /\ len' = len + 1 /\ UNCHANGED <<n, over>>
  /\ \/ \E a \in 1..(n - 1) : \E b \in (a + 1)..n :
          \/ Free /\ Swap(a, b)
          \/ Free /\ Split(a, b, R2, R2)
          \/ Free /\ Rotate(a, b, R2, R2)
          \/ Cost /\ Split(a, b, Fifth(3), Fifth(4))
          \/ Cost /\ Rotate(a, b, Fifth(4), Fifth(3))
     \/ \E r \in 1..n : \/ Free /\ \E j \in {1, 2, 4, 7} : Phase(r, Omega(j))
                        \/ Cost /\ Phase(r, <<3, 0, 4, 0, 0, 1>>)
Stop == /\ ~over /\ (EmitAll \/ len = MaxLen)
        /\ PrintT("@@" \o ToJson([n |-> n, m |-> m]))
        /\ over' = TRUE /\ UNCHANGED <<n, m, len, k5>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
View == <<n, m, over>>
-----------------------------------------------------------------------------
\* rows are exactly orthonormal
IsUnitary == \A i, j \in 1..n : Dot(m[i], [k \in 1..n |-> Conj(m[j][k])]) = (IF i = j THEN One ELSE Zero)
=============================================================================
