-------------------------------- MODULE Fresh --------------------------------
(* A simulation whose permittivity and wavelength are edited and queried in   *)
(* any interleaving.  A query answers from the current permittivity and       *)
(* wavelength only and changes nothing; an edit changes exactly the pixels it *)
(* covers.  A world is a grid with its initial permittivity, its edits, its   *)
(* queries and test fields; a history is a sequence of edits (positive        *)
(* numbers) and queries (negative numbers).                                   *)
EXTENDS Yee, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, eps, k, hist
vars == <<pi, eps, k, hist>>
P == Plan[pi]
G == P.g
N == Size(G)
Covers(ed, i) ==
  CASE ed.op \in {"box", "poke", "slice"} -> \A a \in 1..3 : ed.lo[a] <= Coord(G, a, i) /\ Coord(G, a, i) < ed.hi[a]
    [] ed.op = "fill" -> Coord(G, P.ndim, i) < ed.rows
    [] ed.op \in {"assign", "fillall", "scale", "writeall", "roll"} -> TRUE
    [] ed.op = "wavelength" -> FALSE
Value(ed, i, old) == CASE ed.op \in {"assign", "writeall"} -> ed.eps[i]
                       [] ed.op = "scale" -> QMul(ed.v, old)
                       [] ed.op = "roll" -> old                    \* the same values elsewhere
                       [] OTHER -> ed.v
\* the pixel whose old value an edit looks at
Source(ed, i) == IF ed.op = "roll" THEN PrevI(G, ed.axis, i) ELSE i
Apply(ed, x) == TLCEval([i \in 1..N |-> IF Covers(ed, i) THEN Value(ed, i, x[Source(ed, i)]) ELSE x[i]])
K0 == P.k0[k]
ET == EpsT(G, eps)
\* exact answers of the queries the specification can state in closed form
Answer(what) ==
  CASE what = "eps_t"  -> ET
    [] what = "mat_ez" -> <<OpEz(G, K0, ET, P.f[3])>>
    [] what = "mat"    -> Maxwell(G, K0, ET, P.f)
    [] what = "h2e"    -> VScale(QInv(QMulI(K0)), VDiv(CurlH(G, P.f), ET))
    [] what = "e2h"    -> VScale(QInv(QNeg(QMulI(K0))), CurlE(G, P.f))
    [] what = "rate"   -> VDiv(CurlH(G, P.f), ET)                    \* of the electric field in time
    [] what = "mode"   -> IF P.ndim = 1 THEN <<OpMode1(G, K0, eps, P.f[1])>> ELSE OpMode2(G, K0, ET, P.f[1], P.f[2])
    [] OTHER           -> << >>
Emit(q) == PrintT("@@" \o ToJson([pi |-> pi, hist |-> Append(hist, -q), eps |-> eps, k |-> k, ans |-> Answer(P.queries[q])]))
Init == /\ pi \in 1..Len(Plan) /\ eps = Plan[pi].eps /\ k = 1 /\ hist = << >>
Edit(j) == /\ eps' = Apply(P.edits[j], eps)
           /\ k' = IF P.edits[j].op = "wavelength" THEN P.edits[j].k ELSE k
           /\ hist' = Append(hist, j)
           /\ UNCHANGED pi
Query(q) == /\ Emit(q)
            /\ hist' = Append(hist, -q)
            /\ UNCHANGED <<pi, eps, k>>
Edits == Len(hist) < P.depth - 1 /\ \E j \in 1..Len(P.edits) : Edit(j)
Queries == Len(hist) < P.depth /\ \E q \in 1..Len(P.queries) : Query(q)
Next == Edits \/ Queries
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the state is a function of the edits alone: every pixel holds what its last edits say
RECURSIVE Holds(_, _)
Holds(i, m) == IF m = 0 THEN P.eps[i]
               ELSE IF hist[m] > 0 /\ Covers(P.edits[hist[m]], i) THEN Value(P.edits[hist[m]], i, Holds(Source(P.edits[hist[m]], i), m - 1)) ELSE Holds(i, m - 1)
LastEdits == \A i \in 1..N : eps[i] = Holds(i, Len(hist))
RECURSIVE Lam(_)
Lam(m) == IF m = 0 THEN 1 ELSE IF hist[m] > 0 /\ P.edits[hist[m]].op = "wavelength" THEN P.edits[hist[m]].k ELSE Lam(m - 1)
LastWavelength == k = Lam(Len(hist))
QueriesPure == [][hist'[Len(hist')] < 0 => (eps' = eps /\ k' = k)]_vars
\* averaging keeps the mean of the permittivity: each cell's answer is made of current cells only
Averages == LET s(x) == LET f(i) == x[i] IN QSumTo(f, N) IN (Len(hist) <= 2) => \A c \in 1..3 : s(ET[c]) = s(eps)
=============================================================================
