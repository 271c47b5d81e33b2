------------------------------- MODULE Grad -------------------------------
(* Exact derivatives of a cost of a circuit's outputs.                        *)
(* The cost is  sum_{r,k} W[r][k] |y_rk - T_rk|^2  of the output block y.     *)
(* Every phase enters the field linearly through its phasor, so the           *)
(* derivative field with respect to it is obtained by replacing that layer by *)
(* its derivative (i times the phased rail, zero on all other rails) and      *)
(* crossing the remaining layers.  One behaviour: the value pass, one tangent *)
(* pass per phase parameter, and the backward pass giving the input gradient. *)
EXTENDS Optics, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)

VARIABLES gi, par, out, grads, gin, stage
vars == <<gi, par, out, grads, gin, stage>>
C == Plan[gi]
N == Len(C.nodes)
K == Len(C.x)                      \* number of input vectors
NP == 2 * N + C.n                  \* theta(1..N), phi(1..N) by id, gamma(1..n)
ColNodes(c) == SelectSeq(C.nodes, LAMBDA nd : nd.col = c)
X0 == [r \in 1..C.n |-> [k \in 1..K |-> C.x[k][r]]]
NodeById(i) == C.nodes[CHOOSE j \in 1..N : C.nodes[j].id = i - 1]

RECURSIVE Fwd(_, _, _)
\* cross layers a..b (0-based layer numbers 4*col + layer; 4*ncols is the screen)
Fwd(f, a, b) == IF a > b THEN f
  ELSE Fwd(IF a = 4 * C.ncols THEN ApplyScreen(C.gam, f) ELSE ApplyLayer(C.style, Layers[1 + (a % 4)], ColNodes(a \div 4), f), a + 1, b)
RECURSIVE Bwd(_, _)
Bwd(f, a) == IF a < 0 THEN f
  ELSE Bwd(IF a = 4 * C.ncols THEN ApplyScreen(C.gam, f) ELSE ApplyLayer(C.style, Layers[1 + (a % 4)], ColNodes(a \div 4), f), a - 1)

Only(r, row) == [q \in 1..C.n |-> IF q = r THEN row ELSE [k \in 1..K |-> Zero]]
LayerOf(p) == IF p <= N THEN 4 * NodeById(p).col + 2 ELSE IF p <= 2 * N THEN 4 * NodeById(p - N).col ELSE 4 * C.ncols
\* what a phase multiplies the field of its two rails by (top, bottom), as multiples of i
Weights(p) ==
  LET t == C.style IN
  IF t = "top" THEN <<One, Zero>> ELSE IF t = "bottom" THEN <<Zero, One>>
  ELSE IF p <= N THEN <<Half, Neg(Half)>>
  ELSE IF t = "differential" THEN <<Neg(Half), Half>> ELSE <<One, One>>
\* tangent field right after the layer of parameter p, then through the rest
Tangent(p) ==
  LET L == LayerOf(p)
      f == Fwd(X0, 0, L)
      row(r, c) == [k \in 1..K |-> MulI(Mul(c, f[r][k]))]
      nd == NodeById(IF p <= N THEN p ELSE p - N)
      start == IF p > 2 * N THEN Only(p - 2 * N, row(p - 2 * N, One))
               ELSE [q \in 1..C.n |-> IF q = nd.top THEN row(q, Weights(p)[1])
                                       ELSE IF q = nd.bottom THEN row(q, Weights(p)[2]) ELSE [k \in 1..K |-> Zero]]
  IN Fwd(start, L + 1, 4 * C.ncols)
\* residual 2 W conj(y - T)
Res == [r \in 1..C.n |-> [k \in 1..K |-> Mul(RInt(2 * C.w[r][k]), Conj(Sub(out[r][k], C.t[r][k])))]]
RePart(x) == Mul(Half, Add(x, Conj(x)))
Inner(a, b) == LET g(r) == Dot(a[r], b[r]) IN SumTo(g, C.n)

Init == gi \in 1..Len(Plan) /\ par = 0 /\ out = << >> /\ grads = << >> /\ gin = << >> /\ stage = "value"
Value == stage = "value" /\ out' = Fwd(X0, 0, 4 * C.ncols) /\ stage' = "tangents" /\ par' = 1 /\ UNCHANGED <<gi, grads, gin>>
Tan == stage = "tangents" /\ par <= NP
       /\ grads' = Append(grads, RePart(Inner(Res, Tangent(par))))
       /\ par' = par + 1 /\ UNCHANGED <<gi, out, gin, stage>>
Back == stage = "tangents" /\ par > NP
        /\ gin' = Bwd(Res, 4 * C.ncols) /\ stage' = "emit" /\ UNCHANGED <<gi, par, out, grads>>
Emit == stage = "emit"
        /\ PrintT("@@" \o ToJson([gi |-> gi, out |-> out, grads |-> grads, gin |-> gin]))
        /\ stage' = "done" /\ UNCHANGED <<gi, par, out, grads, gin>>
Next == Value \/ Tan \/ Back \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
GradsReal == \A i \in 1..Len(grads) : IsReal(grads[i])
\* a common change of all output phases only matters through the targets: with T = 0 the output phases have no effect
NoTarget == \A r \in 1..C.n : \A k \in 1..K : C.t[r][k] = Zero
ScreenFree == (stage = "emit" /\ NoTarget) => \A j \in 1..C.n : grads[2 * N + j] = Zero
\* scaling all inputs: Re <gradient, input> is the derivative along the inputs, 2 sum W Re(conj(y-T) y)
Euler == stage = "emit" =>
   RePart(LET g(r) == Dot(gin[r], X0[r]) IN SumTo(g, C.n)) = RePart(Inner(Res, out))
=============================================================================
