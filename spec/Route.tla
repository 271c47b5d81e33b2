------------------------------- MODULE Route -------------------------------
(* The chain matrix of a vector: a lossless circuit which gathers the power   *)
(* of the vector rail by rail.  A behaviour reads the vector one rail at a    *)
(* time; the step for rail k combines what was gathered so far (power G) with *)
(* the power of rail k and adds one output carrying the remaining             *)
(* combination.  Entries are described by their exact squared magnitudes.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)     \* length and alphabet (Gaussian integers <<re, im>>)
VARIABLES pi, v, g, cols
vars == <<pi, v, g, cols>>
Pow(x) == x[1] * x[1] + x[2] * x[2]
RECURSIVE Acc(_, _)
Acc(u, k) == IF k = 0 THEN 0 ELSE Pow(u[k]) + Acc(u, k - 1)
Init == pi \in 1..Len(Plan) /\ v = << >> /\ g = 0 /\ cols = << >>
\* the output added with rail k: fractions <<numerator, denominator>> of the power it takes from every rail so far
Column(u, k) ==
  LET a == Acc(u, k - 1)
      p == Pow(u[k])
  IN [j \in 1..k |-> IF a = 0 THEN << >>                     \* nothing gathered yet: any free combination of the rails before
                     ELSE IF j < k THEN <<Pow(u[j]) * p, a * (a + p)>> ELSE <<a * a, a * (a + p)>>]
Read(x) == /\ Len(v) < Plan[pi].n /\ UNCHANGED pi
           /\ v' = Append(v, x) /\ g' = g + Pow(x)
           /\ cols' = IF Len(v) = 0 THEN cols ELSE Append(cols, Column(v', Len(v')))
Next == \E i \in 1..Len(Plan[pi].alphabet) : Read(Plan[pi].alphabet[i])
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Gathered == g = Acc(v, Len(v))
Known(c) == c[1] # << >>
RECURSIVE SumNum(_, _)
SumNum(c, k) == IF k = 0 THEN 0 ELSE c[k][1] + SumNum(c, k - 1)
\* every output is normalised
Normal == \A k \in 1..Len(cols) : Known(cols[k]) => SumNum(cols[k], Len(cols[k])) = cols[k][1][2]
\* outputs are orthogonal to the gathered one: amplitudes of column k over the rails before are those of the vector, up to
\* the factor sqrt(p_k / (a (a + p_k))), and -sqrt(a / (a + p_k)) on rail k; the inner product is factor (a - a) = 0
Orthogonal == \A k \in 1..Len(cols) : Known(cols[k]) =>
                LET a == Acc(v, k) IN \A j \in 1..k : cols[k][j][1] * a = Pow(v[j]) * Pow(v[k + 1]) * a /\ cols[k][k + 1][1] = a * a
Emit == (Len(v) >= 1 /\ g > 0) => PrintT("@@" \o ToJson([v |-> v, g |-> g, cols |-> cols]))
=============================================================================
