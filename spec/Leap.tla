-------------------------------- MODULE Leap --------------------------------
(* Leapfrog time stepping, exactly.                                            *)
(* The time step is dt = 1 / sqrt(w1^2 + w2^2 + w3^2), usually irrational, but *)
(* dt^2 = T is rational: with magnetic fields h = dt H and electric currents   *)
(* J = dt K every quantity below is a Gaussian rational:                       *)
(*    e' = e + T (curl H - K) / eps,   H' = H - curl e' - M.                   *)
(* A source is a list of <<component, cell>> places with a value of K and of M *)
(* for each.                                                                   *)
EXTENDS Yee, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, n, e, h, hp
vars == <<pi, n, e, h, hp>>
P == Plan[pi]
G == P.g
ET == EpsT(G, P.eps)
Zv == VZero(G)
\* total current at every place
RECURSIVE Sum(_, _, _, _, _)
Sum(s, which, c, i, k) == IF k = 0 THEN Q0
  ELSE QAdd(Sum(s, which, c, i, k - 1), IF s.at[k][1] = c /\ s.at[k][2] = i THEN (IF which = "j" THEN s.j[k] ELSE s.m[k]) ELSE Q0)
RECURSIVE Total(_, _, _, _, _)
Total(ss, which, c, i, k) == IF k = 0 THEN Q0
  ELSE QAdd(Total(ss, which, c, i, k - 1), IF (which = "j" /\ ss[k].j = << >>) \/ (which = "m" /\ ss[k].m = << >>) THEN Q0
                                          ELSE Sum(ss[k], which, c, i, Len(ss[k].at)))
Current(ss, which) == [c \in 1..3 |-> TLCEval([i \in 1..Size(G) |-> Total(ss, which, c, i, Len(ss))])]
Src == P.sched[n + 1]
Emit(what) == PrintT("@@" \o ToJson([pi |-> pi, n |-> n', e |-> e', h |-> h']))
Init == /\ pi \in 1..Len(Plan)
        /\ n = 0 /\ e = Plan[pi].e /\ h = Plan[pi].h
        /\ hp = VAdd(Plan[pi].h, CurlE(Plan[pi].g, Plan[pi].e))
Step == /\ n < Len(P.sched)
        /\ n' = n + 1 /\ UNCHANGED pi /\ hp' = h
        /\ e' = VAdd(e, VDiv(VScale(P.T, IF Src = << >> THEN CurlH(G, h) ELSE VSub(CurlH(G, h), Current(Src, "j"))), ET))
        /\ h' = IF Src = << >> THEN VSub(h, CurlE(G, e')) ELSE VSub(VSub(h, CurlE(G, e')), Current(Src, "m"))
        /\ Emit("state")
Next == Step
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Courant == QMul(P.T, QAdd(QAdd(IF P.ndim >= 1 THEN QMul(G.w[1], G.w[1]) ELSE Q0, IF P.ndim >= 2 THEN QMul(G.w[2], G.w[2]) ELSE Q0),
                          IF P.ndim >= 3 THEN QMul(G.w[3], G.w[3]) ELSE Q0)) = Q1
NoSource == \A k \in 1..n : P.sched[k] = << >>
Charge(x) == DivB(G, VMul(ET, x))
\* with sources the charge changes by exactly the divergence of the current, the magnetic divergence by that of M
ChargeKept == NoSource => Charge(e) = Charge(P.e)
MagneticKept == NoSource => DivF(G, h) = DivF(G, P.h)
Balance == [][(n' = n + 1 /\ n < P.bdepth) =>
   /\ Charge(e') = FSub(Charge(e), FScale(P.T, DivB(G, Current(P.sched[n + 1], "j"))))
   /\ DivF(G, h') = FSub(DivF(G, h), DivF(G, Current(P.sched[n + 1], "m")))]_vars
Energy(x, y, z) == QAdd(QRe(VInner(x, VMul(ET, x))), QMul(P.T, QRe(VInner(y, z))))
EnergyKept == (NoSource /\ n <= P.edepth) => Energy(e, h, hp) = Energy(P.e, P.h, VAdd(P.h, CurlE(G, P.e)))
\* a disturbance moves at most one cell per step along every axis
Dist(a, i, j) == LET d == AbsI(Coord(G, a, i) - Coord(G, a, j)) IN IF d <= G.n[a] - d THEN d ELSE G.n[a] - d
Near(i, j, m) == \A a \in 1..3 : Dist(a, i, j) <= m
Quiet0(i) == \A c \in 1..3 : P.e[c][i] = Q0 /\ P.h[c][i] = Q0
LightCone == (P.cone /\ NoSource) => \A i \in 1..Size(G) :
               (\A j \in 1..Size(G) : Near(i, j, n) => Quiet0(j)) => \A c \in 1..3 : e[c][i] = Q0 /\ h[c][i] = Q0
\* the update can be undone: the state determines the previous one
Reversible == (n > 0 /\ P.sched[n] = << >> /\ n <= P.bdepth) => hp = VAdd(h, CurlE(G, e))
=============================================================================
