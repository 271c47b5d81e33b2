------------------------------- MODULE Hess -------------------------------
(* Exact second derivatives of a vector unit's programming error              *)
(*     E = 2 - 2 Re y_last,   y = M(theta, phi) x,  x = conj(last row of M)   *)
(* with respect to all coupler phases, at the programmed point (E = 0).       *)
(* Each phase enters through its phasor, so first / second derivatives are    *)
(* obtained by inserting i (or -1) on the phased rail and 0 elsewhere.        *)
EXTENDS Optics, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES hi, x, p, rows, stage
vars == <<hi, x, p, rows, stage>>
C == Plan[hi]
N == Len(C.nodes)
Last == C.n
ColNodes(c) == SelectSeq(C.nodes, LAMBDA nd : nd.col = c)
NodeById(i) == C.nodes[CHOOSE j \in 1..N : C.nodes[j].id = i - 1]
End == 4 * C.ncols - 1
Layer(f, a) == ApplyLayer(C.style, Layers[1 + (a % 4)], ColNodes(a \div 4), f)
RECURSIVE Fwd(_, _, _)
Fwd(f, a, b) == IF a > b THEN f ELSE Fwd(Layer(f, a), a + 1, b)
RECURSIVE Bwd(_, _)
Bwd(f, a) == IF a < 0 THEN f ELSE Bwd(Layer(f, a), a - 1)
ELast == [r \in 1..C.n |-> <<IF r = Last THEN One ELSE Zero>>]
\* backward from the last rail gives the last row of M
Target == LET b == Bwd(ELast, End) IN [r \in 1..C.n |-> <<Conj(b[r][1])>>]
LayerOf(q) == IF q <= N THEN 4 * NodeById(q).col + 2 ELSE 4 * NodeById(q - N).col
RailOf(q) == NodeById(IF q <= N THEN q ELSE q - N).top
Only(r, v) == [k \in 1..C.n |-> IF k = r THEN <<v>> ELSE <<Zero>>]
RePart(z) == Mul(Half, Add(z, Conj(z)))
Y(f) == f[Last][1]
First(q) == LET f == Fwd(x, 0, LayerOf(q)) IN Y(Fwd(Only(RailOf(q), MulI(f[RailOf(q)][1])), LayerOf(q) + 1, End))
Second(a, b) ==
  IF a = b THEN LET f == Fwd(x, 0, LayerOf(a)) IN Y(Fwd(Only(RailOf(a), Neg(f[RailOf(a)][1])), LayerOf(a) + 1, End))
  ELSE IF LayerOf(a) = LayerOf(b) THEN Zero
  ELSE LET u == IF LayerOf(a) < LayerOf(b) THEN a ELSE b
           w == IF LayerOf(a) < LayerOf(b) THEN b ELSE a
           f == Fwd(x, 0, LayerOf(u))
           g == Fwd(Only(RailOf(u), MulI(f[RailOf(u)][1])), LayerOf(u) + 1, LayerOf(w))
       IN Y(Fwd(Only(RailOf(w), MulI(g[RailOf(w)][1])), LayerOf(w) + 1, End))

Init == hi \in 1..Len(Plan) /\ x = << >> /\ p = 0 /\ rows = << >> /\ stage = "target"
SetTarget == stage = "target" /\ x' = Target /\ stage' = "rows" /\ p' = 1 /\ UNCHANGED <<hi, rows>>
Row == stage = "rows" /\ p <= 2 * N
       /\ rows' = Append(rows, [q \in 1..(2 * N) |-> Mul(RInt(-2), RePart(Second(p, q)))])
       /\ p' = p + 1 /\ UNCHANGED <<hi, x, stage>>
Emit == stage = "rows" /\ p > 2 * N /\ stage' = "done"
        /\ PrintT("@@" \o ToJson([hi |-> hi, v |-> [r \in 1..C.n |-> Conj(x[r][1])], h |-> rows]))
        /\ UNCHANGED <<hi, x, p, rows>>
Next == SetTarget \/ Row \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* programmed point: the error vanishes and is stationary
Programmed == (stage = "rows" /\ p = 1) => (Y(Fwd(x, 0, End)) = One /\ \A q \in 1..(2 * N) : RePart(First(q)) = Zero)
Symmetric == stage = "done" => \A a, b \in 1..(2 * N) : rows[a][b] = rows[b][a]
=============================================================================
