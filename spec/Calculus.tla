------------------------------ MODULE Calculus ------------------------------
(* Vector-calculus identities of the discrete operators, checked exactly on   *)
(* every planned grid, and the values every operator takes on given fields.   *)
EXTENDS Yee, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, op, val
vars == <<pi, op, val>>
P == Plan[pi]
G == P.g
Ones == [i \in 1..Size(G) |-> Q1]
ET == EpsT(G, P.eps)
Ops == <<"df", "db", "ce", "ch", "ceb", "chb", "cc", "mx", "ez", "hz", "hzx", "et">>
Val(o) == CASE o = "df" -> GradF(G, P.p) [] o = "db" -> GradB(G, P.p)
            [] o = "ce" -> CurlE(G, P.f) [] o = "ch" -> CurlH(G, P.f)
            [] o = "ceb" -> CurlEB(G, P.beta, P.f) [] o = "chb" -> CurlHB(G, P.beta, P.f)
            [] o = "cc" -> CurlH(G, CurlE(G, P.f)) [] o = "mx" -> Maxwell(G, P.k0, ET, P.f)
            [] o = "ez" -> <<OpEz(G, P.k0, ET, P.p)>> [] o = "hz" -> <<OpHz(G, P.k0, ET, P.p)>>
            [] o = "hzx" -> <<OpHzX(G, P.k0, ET, P.p)>> [] o = "et" -> ET
Init == pi \in 1..Len(Plan) /\ op = 0 /\ val = << >>
Next == /\ op < Len(Ops)
        /\ op' = op + 1
        /\ val' = IF Ops[op + 1] \in {P.ops[i] : i \in 1..Len(P.ops)} THEN Val(Ops[op + 1]) ELSE << >>
        /\ IF val' # << >> THEN PrintT("@@" \o ToJson([pi |-> pi, op |-> Ops[op + 1], v |-> val'])) ELSE TRUE
        /\ UNCHANGED pi
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
At0 == op = 0
Zero3(v) == v = VZero(G)
Adjoint == At0 => \A a \in 1..3 : QInner(P.f[1], DB(G, a, P.p)) = QNeg(QInner(DF(G, a, P.f[1]), P.p))
Commute == At0 => \A a, b \in 1..3 :
             /\ a < b => DF(G, a, DF(G, b, P.p)) = DF(G, b, DF(G, a, P.p)) /\ DB(G, a, DB(G, b, P.p)) = DB(G, b, DB(G, a, P.p))
             /\ a # b => DF(G, a, DB(G, b, P.p)) = DB(G, b, DF(G, a, P.p))
CurlGrad == At0 => Zero3(CurlE(G, GradF(G, P.p))) /\ Zero3(CurlH(G, GradB(G, P.p)))
DivCurl == At0 => DivF(G, CurlE(G, P.f)) = ZeroF(G) /\ DivB(G, CurlH(G, P.f)) = ZeroF(G)
Constants == At0 => \A a \in 1..3 : G.b[a] = Q1 => DF(G, a, Ones) = ZeroF(G) /\ DB(G, a, Ones) = ZeroF(G)
\* the two curls are adjoint, so the double curl is Hermitian
CurlAdjoint == At0 => VInner(CurlE(G, P.f), P.f2) = VInner(P.f, CurlH(G, P.f2))
\* on grids of a single pixel along z the full operator splits into the two polarisations
Restriction == (At0 /\ G.n[3] = 1) =>
  /\ Maxwell(G, P.k0, ET, <<ZeroF(G), ZeroF(G), P.p>>) = <<ZeroF(G), ZeroF(G), OpEz(G, P.k0, ET, P.p)>>
  /\ CurlE(G, VDiv(CurlH(G, <<ZeroF(G), ZeroF(G), P.p>>), ET)) =
       <<ZeroF(G), ZeroF(G), FAdd(OpHz(G, P.k0, ET, P.p), FScale(QMul(P.k0, P.k0), P.p))>>
=============================================================================
