------------------------------- MODULE Layers -------------------------------
(* Absorbing layers, exactly.  A layer of t cells lies on both sides of every  *)
(* axis.  Depth is 0 outside and grows to 1 at the outer boundary; strengths   *)
(* are powers of the depth.                                                    *)
(*   size   which thicknesses fit which grids                                  *)
(*   place  where sources and ports may be placed                              *)
(*   freq   frequency domain: differences divided by the stretch 1 + i S       *)
(*   time   time domain: recursive convolutions psi' = b psi + (b - 1) D f     *)
(*          added to every difference D f, b = 2^(-2 t depth)                  *)
(*   trace  verdict on energies recorded from the real stepper                 *)
EXTENDS Yee, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, k, out, e, h, pe, ph, e0, h0
vars == <<pi, k, out, e, h, pe, ph, e0, h0>>
P == Plan[pi]
G == P.g
-----------------------------------------------------------------------------
\* twice t times the depth of nodes and of cell centres 0..n-1
Node(n, t, i) == IF i < t THEN 2 * (t - i) ELSE IF i >= n - t THEN 2 * (i - (n - t)) ELSE 0
Centre(n, t, i) == IF i < t THEN 2 * (t - i) - 1 ELSE IF i >= n - t THEN 2 * (i - (n - t)) + 1 ELSE 0
DepthN(n, t, i) == QNorm(Node(n, t, i), 0, 2 * t)
DepthC(n, t, i) == QNorm(Centre(n, t, i), 0, 2 * t)
\* the depth at centres as frequency-domain simulations have it (recorded finding)
DepthX(n, t, i) == IF i < t THEN QNorm(2 * (t - i), 0, 2 * t + 1) ELSE IF i >= n - t THEN QNorm(2 * (i - (n - t)), 0, 2 * t - 1) ELSE Q0
RECURSIVE QPow(_, _)
QPow(x, m) == IF m = 0 THEN Q1 ELSE QMul(x, QPow(x, m - 1))
\* 1 + i (m + 1) d^m R / (2 c)
Stretch(d, m, R, c) == QAdd(Q1, QMulI(QMul(QMul(QInt(m + 1), QPow(d, m)), QDiv(R, QMul(QInt(2), c)))))
Strengths(depth(_, _, _), a) == TLCEval([i \in 1..G.n[a] |-> IF G.n[a] = 1 THEN Q1 ELSE Stretch(depth(G.n[a], P.t[a], i - 1), P.m, P.R, P.c)])
\* 2^(-j)
RECURSIVE Two(_)
Two(j) == IF j = 0 THEN 1 ELSE 2 * Two(j - 1)
Decay(j) == <<1, 0, Two(j)>>
Z6 == [j \in 1..6 |-> ZeroF(G)]
-----------------------------------------------------------------------------
Fits(n, t) == t > 3 /\ t < n \div 2
Clamp(x, lo, hi) == IF (IF x > lo THEN x ELSE lo) < hi THEN (IF x > lo THEN x ELSE lo) ELSE hi
None == << >>
Init == pi \in 1..Len(Plan) /\ k = 0 /\ out = None
        /\ (IF Plan[pi].w = "time" THEN e = Plan[pi].e /\ h = Plan[pi].h /\ e0 = Plan[pi].e /\ h0 = Plan[pi].h /\ pe = Z6 /\ ph = Z6
            ELSE e = None /\ h = None /\ e0 = None /\ h0 = None /\ pe = None /\ ph = None)
Report(r) == PrintT("@@" \o ToJson(r))
Size1 == /\ P.w = "size" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<pi, e, h, pe, ph, e0, h0>>
         /\ out' = [ok |-> \A a \in 1..Len(P.n) : Fits(P.n[a], P.t[a])]
         /\ Report([pi |-> pi, ok |-> out'.ok])
\* sources are moved at least t + sep cells away from the boundary (and the last cell)
Place == /\ P.w = "place" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<pi, e, h, pe, ph, e0, h0>>
         /\ out' = [at |-> [a \in 1..2 |-> LET s == IF P.t = None THEN 0 ELSE 4 * (P.t[a] + P.sep) IN Clamp(P.x[a], s, 4 * (P.n[a] - 1) - s)]]
         /\ Report([pi |-> pi, at |-> out'.at])
DS(g, a, f, s) == LET d == TLCEval(DF(g, a, f)) IN TLCEval([i \in 1..Size(g) |-> QDiv(d[i], s[Coord(g, a, i) + 1])])
DSB(g, a, f, s) == LET d == TLCEval(DB(g, a, f)) IN TLCEval([i \in 1..Size(g) |-> QDiv(d[i], s[Coord(g, a, i) + 1])])
Freq == /\ P.w = "freq" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<pi, e, h, pe, ph, e0, h0>>
        /\ LET Q == TLCEval([a \in 1..P.nd |-> Strengths(DepthN, a)])
               C == TLCEval([a \in 1..P.nd |-> Strengths(DepthC, a)])
               X == TLCEval([a \in 1..P.nd |-> Strengths(DepthX, a)])
           IN out' = [sn |-> Q, sc |-> C, sx |-> X, dc |-> [a \in 1..P.nd |-> DS(G, a, P.f, C[a])], dx |-> [a \in 1..P.nd |-> DS(G, a, P.f, X[a])],
                      db |-> [a \in 1..P.nd |-> DSB(G, a, P.f, Q[a])]]
        /\ Report([pi |-> pi, sn |-> out'.sn, sc |-> out'.sc, sx |-> out'.sx, dc |-> out'.dc, dx |-> out'.dx, db |-> out'.db])
\* the six differences <<component, axis>> of a curl
Pairs == <<<<3, 2>>, <<2, 3>>, <<1, 3>>, <<3, 1>>, <<2, 1>>, <<1, 2>>>>
Diffs(D(_, _, _), f) == TLCEval([j \in 1..6 |-> TLCEval(D(G, Pairs[j][2], f[Pairs[j][1]]))])
CurlOf(d) == <<FSub(d[1], d[2]), FSub(d[3], d[4]), FSub(d[5], d[6])>>
Lay(a) == P.t # None /\ a <= P.nd
Psi(prev, d, pos(_, _, _)) == TLCEval([j \in 1..6 |-> LET a == Pairs[j][2] IN IF ~Lay(a) THEN prev[j] ELSE TLCEval([i \in 1..Size(G) |->
    LET x == pos(G.n[a], P.t[a], Coord(G, a, i)) IN IF x = 0 THEN prev[j][i] ELSE LET b == Decay(x) IN QAdd(QMul(b, prev[j][i]), QMul(QSub(b, Q1), d[j][i]))])])
Plus(u, v) == TLCEval([j \in 1..6 |-> FAdd(u[j], v[j])])
ET == EpsT(G, P.eps)
TimeE == /\ P.w = "time" /\ k < P.halves /\ k % 2 = 0 /\ k' = k + 1 /\ UNCHANGED <<pi, h, ph, h0, out>>
         /\ LET d == Diffs(DB, h) IN pe' = Psi(pe, d, Node) /\ e' = VAdd(e, VDiv(VScale(P.T, CurlOf(Plus(d, pe'))), ET))
         /\ e0' = VAdd(e0, VDiv(VScale(P.T, CurlH(G, h0)), ET))
         /\ Report([pi |-> pi, k |-> k', e |-> e'])
TimeH == /\ P.w = "time" /\ k < P.halves /\ k % 2 = 1 /\ k' = k + 1 /\ UNCHANGED <<pi, e, pe, e0, out>>
         /\ LET d == Diffs(DF, e) IN ph' = Psi(ph, d, Centre) /\ h' = VSub(h, CurlOf(Plus(d, ph')))
         /\ h0' = VSub(h0, CurlE(G, e0))
         /\ Report([pi |-> pi, k |-> k', h |-> h'])
\* steps during which nothing from the support lo..hi (per axis) can be affected by the layers
Least(s) == CHOOSE x \in s : \A y \in s : x <= y
Quiet(n, t, lo, hi) == Least({lo[a] - t[a] : a \in 1..Len(n)} \union {n[a] - t[a] - 1 - hi[a] : a \in 1..Len(n)})
Reach == /\ P.w = "reach" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<pi, e, h, pe, ph, e0, h0>>
         /\ out' = [steps |-> Quiet(P.n, P.t, P.lo, P.hi)] /\ Report([pi |-> pi, steps |-> out'.steps])
\* a recorded history of the energy of a source-free simulation (parts per million of the first); the convolutions hold a little of it
Trace == /\ P.w = "trace" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<pi, e, h, pe, ph, e0, h0>>
         /\ out' = [bounded |-> \A i \in 1..Len(P.en) : P.en[i] <= P.en[1] + P.en[1] \div 10, decays |-> P.en[Len(P.en)] <= P.goal]
         /\ Report([pi |-> pi, bounded |-> out'.bounded, decays |-> out'.decays])
Next == Size1 \/ Place \/ Freq \/ TimeE \/ TimeH \/ Reach \/ Trace
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* layers at opposite faces mirror each other: node i and node n - i, centre i and centre n - 1 - i
Mirrored == (P.w = "freq" /\ k = 1) => \A a \in 1..P.nd : LET n == G.n[a] IN
              /\ \A i \in 2..n : out.sn[a][i] = out.sn[a][n + 2 - i]
              /\ \A i \in 1..n : out.sc[a][i] = out.sc[a][n + 1 - i]
Str(x) == QNeg(QMulI(QSub(x, Q1)))                     \* S of a stretch
Leq(x, y) == x[1] * y[3] <= y[1] * x[3]
\* strengths vanish outside the layers, never decrease towards the boundary, and absorb (waves exp(+i w t))
Shape == (P.w = "freq" /\ k = 1) => \A a \in 1..P.nd : LET n == G.n[a] IN \A s \in {out.sn[a], out.sc[a], out.sx[a]} :
           /\ \A i \in 1..n : s[i][1] = s[i][3] /\ s[i][2] <= 0
           /\ \A i \in 1..n : (i > P.t[a] /\ i <= n - P.t[a]) => s[i] = Q1
           /\ \A i \in 1..(P.t[a] - 1) : Leq(Str(s[i]), Str(s[i + 1])) /\ Leq(Str(s[n + 1 - i]), Str(s[n - i]))
\* differences outside the layers are those without layers
OutsideF == (P.w = "freq" /\ k = 1) => \A a \in 1..P.nd : LET f == DF(G, a, P.f) b == DB(G, a, P.f) IN
           \A i \in 1..Size(G) : (Coord(G, a, i) >= P.t[a] /\ Coord(G, a, i) < G.n[a] - P.t[a]) => out.dc[a][i] = f[i] /\ out.dx[a][i] = f[i] /\ out.db[a][i] = b[i]
\* after k half steps, cells at least k cells away from the layers do not know them
Far(i) == P.t = None \/ \A a \in 1..P.nd : Coord(G, a, i) >= P.t[a] + k /\ Coord(G, a, i) < G.n[a] - P.t[a] - k
OutsideT == P.w = "time" => \A i \in 1..Size(G) : Far(i) => \A c \in 1..3 : e[c][i] = e0[c][i] /\ h[c][i] = h0[c][i]
\* auxiliary fields live inside the layers
Auxiliary == P.w = "time" => \A j \in 1..6 : LET a == Pairs[j][2] IN \A i \in 1..Size(G) :
               (~Lay(a) \/ (Coord(G, a, i) >= P.t[a] /\ Coord(G, a, i) < G.n[a] - P.t[a])) => pe[j][i] = Q0 /\ ph[j][i] = Q0
\* waves that have not come near the layers are those without layers, everywhere
Support == {i \in 1..Size(G) : \E c \in 1..3 : P.e[c][i] # Q0 \/ P.h[c][i] # Q0}
Arrive == (P.w = "time" /\ P.t # None) => ((\A i \in Support : \A a \in 1..P.nd : Coord(G, a, i) >= P.t[a] + k /\ Coord(G, a, i) < G.n[a] - P.t[a] - k) => e = e0 /\ h = h0)
Placed == (P.w = "place" /\ k = 1 /\ P.t # None) => \A a \in 1..2 : LET s == 4 * (P.t[a] + P.sep) IN
            (2 * s <= 4 * (P.n[a] - 1)) => out.at[a] >= s /\ out.at[a] <= 4 * (P.n[a] - 1) - s
=============================================================================
