------------------------------ MODULE CosSin ------------------------------
(* The blocks of exact unitaries (histories of Unitary.tla).  The sines of a  *)
(* cosine-sine decomposition are the singular values of the first block, so   *)
(* their power sums are traces of powers of its Gram matrix; the other blocks *)
(* carry the complementary power.                                             *)
EXTENDS Unitary
H == n \div 2
Cut(r1, r2, c1, c2) == [i \in 1..(r2 - r1 + 1) |-> [j \in 1..(c2 - c1 + 1) |-> m[r1 + i - 1][c1 + j - 1]]]
Q00 == Cut(1, H, 1, H)
Q01 == Cut(1, H, H + 1, n)
Q10 == Cut(H + 1, n, 1, H)
RECURSIVE SumRing(_, _)
SumRing(f, k) == IF k = 0 THEN Zero ELSE Add(f[k], SumRing(f, k - 1))
\* columns of x against each other
Gram(x) == LET c == Len(x[1]) IN TLCEval([i \in 1..c |-> [j \in 1..c |-> SumRing([k \in 1..Len(x) |-> Mul(Conj(x[k][i]), x[k][j])], Len(x))]])
Trace(g) == SumRing([i \in 1..Len(g) |-> g[i][i]], Len(g))
Times(a, b) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a) |-> SumRing([k \in 1..Len(a) |-> Mul(a[i][k], b[k][j])], Len(a))]])
\* power sums of the squared sines
Sums == LET g == Gram(Q00) IN <<Trace(g), Trace(Times(g, g))>>
Halt == /\ ~over /\ n >= 2 /\ (EmitAll \/ len = MaxLen)
        /\ PrintT("@@" \o ToJson([n |-> n, m |-> m, sums |-> Sums]))
        /\ over' = TRUE /\ UNCHANGED <<n, m, len, k5>>
CNext == Step \/ Halt
CSpec == Init /\ [][CNext]_vars
-----------------------------------------------------------------------------
\* sine and cosine blocks complement each other: down the columns and along the rows
Ones(k) == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN One ELSE Zero]]
Plus(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> Add(a[i][j], b[i][j])]]
Complement == Plus(Gram(Q00), Gram(Q10)) = Ones(H)
\* the power which leaves the first block sideways equals the power which leaves it downwards
Balanced == LET f(x) == SumRing([i \in 1..Len(x) |-> SumRing([j \in 1..Len(x[1]) |-> Mul(x[i][j], Conj(x[i][j]))], Len(x[1]))], Len(x))
            IN f(Q01) = f(Q10)
=============================================================================
