-------------------------------- MODULE Modes --------------------------------
(* Cross-sections of waveguides: the operator whose eigenvectors are the      *)
(* guided modes, column by column, and what must be true of it.               *)
(* A section is a line or a plane of pixels; a mode varies as exp(-i beta z). *)
EXTENDS Yee, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, col, out
vars == <<pi, col, out>>
P == Plan[pi]
G == P.g
N == Size(G)
ET == EpsT(G, P.eps)
Dim == IF P.ndim = 1 THEN N ELSE 2 * N
Unit(m) == TLCEval([i \in 1..N |-> IF i = m THEN Q1 ELSE Q0])
Z == ZeroF(G)
\* a column of the mode operator
Op(hx, hy) == OpMode2(G, P.k0, ET, hx, hy)
Column(j) == IF P.ndim = 1 THEN OpMode1(G, P.k0, P.eps, Unit(j))
             ELSE LET r == IF j <= N THEN Op(Unit(j), Z) ELSE Op(Z, Unit(j - N)) IN r[1] \o r[2]
Diffs(j) == [df |-> [a \in 1..P.ndim |-> DF(G, a, Unit(j))], db |-> [a \in 1..P.ndim |-> DB(G, a, Unit(j))]]
Emit(r) == PrintT("@@" \o ToJson(r))
Init == /\ pi \in 1..Len(Plan) /\ col = 0 /\ out = << >>
Next == /\ col < Dim
        /\ col' = col + 1
        /\ out' = Column(col')
        /\ Emit([pi |-> pi, col |-> col', v |-> out', d |-> IF col' <= N THEN Diffs(col') ELSE << >>, et |-> IF col' = 1 THEN ET ELSE << >>])
        /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* a solution of the operator is a solution of Maxwell's equations: for every transverse field, with the longitudinal
\* field that makes it free of divergence, the residual of the curl equations is the residual of the mode equation
Hz(hx, hy) == FScale(QInv(QMulI(P.beta)), FAdd(DF(G, 1, hx), DF(G, 2, hy)))
Resid(hx, hy) == LET h == <<hx, hy, Hz(hx, hy)>>
                 IN VSub(CurlEB(G, P.beta, VDiv(CurlHB(G, P.beta, h), ET)), VScale(QMul(P.k0, P.k0), h))
ModeIsMaxwell ==
  (P.ndim = 2 /\ col = 0) =>
    LET r == Resid(P.f[1], P.f[2])
        c == Op(P.f[1], P.f[2])
        b2 == QMul(P.beta, P.beta)
    IN /\ FMul(ET[2], r[1]) = FSub(FScale(b2, P.f[1]), c[1])
       /\ FMul(ET[1], r[2]) = FSub(FScale(b2, P.f[2]), c[2])
\* divergence-free by construction
NoDivergence == (P.ndim = 2 /\ col = 0) =>
   FAdd(FAdd(DF(G, 1, P.f[1]), DF(G, 2, P.f[2])), FScale(MIB(P.beta), Hz(P.f[1], P.f[2]))) = Z
\* on a line the operator is symmetric, never exceeds its largest permittivity, and its profile is the electric one
Symmetric == P.ndim = 1 => \A i \in 1..N : (col >= 1) => out[i] = OpMode1(G, P.k0, P.eps, Unit(i))[col]
QLe(x, y) == x[1] * y[3] <= y[1] * x[3]
Bounded == (P.ndim = 1 /\ col = 0) =>
   LET f == P.f[1]
       k2 == QMul(P.k0, P.k0)
   IN QLe(QRe(QInner(f, OpMode1(G, P.k0, P.eps, f))), QRe(QMul(QMul(k2, P.emax), QInner(f, f))))
\* in a uniform medium the constant profile travels at the medium's index
Constant == [i \in 1..N |-> Q1]
Uniform == (P.uniform /\ col = 0) =>
   LET k2e == QMul(QMul(P.k0, P.k0), P.eps[1])
   IN IF P.ndim = 1 THEN OpMode1(G, P.k0, P.eps, Constant) = FScale(k2e, Constant)
      ELSE Op(Constant, Z) = <<FScale(k2e, Constant), Z>> /\ Op(Z, Constant) = <<Z, FScale(k2e, Constant)>>
\* a manufactured fundamental mode: a positive profile solving the operator exactly
Manufactured == (P.made /\ col = 0) =>
   /\ OpMode1(G, P.k0, P.eps, P.profile) = FScale(P.beta2, P.profile)
   /\ \A i \in 1..N : P.profile[i][1] > 0
=============================================================================
