------------------------------- MODULE Adjoint -------------------------------
(* Gradients of frequency-domain simulations.  A problem fixes a design, a     *)
(* field f, an adjoint field lam and cotangents of the secondary fields; the   *)
(* source (so that f is the simulated field) and the cotangent of the primary  *)
(* field (so that lam is the adjoint field) are computed from them, exactly.   *)
(* The gradient of the cost is then known in closed form, and is compared with *)
(* derivatives along directions of the design.                                 *)
(* World 0 is a process that answers requests: forward simulations leave       *)
(* pending pull-backs, evaluated later in any order, each yielding the         *)
(* gradient of its own request.                                                *)
EXTENDS Yee, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)      \* [probs: problems, reqs: requests (problem numbers), depth: events]
VARIABLES pi, ans, hist, pend
vars == <<pi, ans, hist, pend>>
P == Plan.probs[pi]
G == P.g
GC == [G EXCEPT !.b = <<QConj(G.b[1]), QConj(G.b[2]), QConj(G.b[3])>>]
Z == ZeroF(G)
IK == QMulI(P.k0)
K2 == QMul(P.k0, P.k0)
VDot(u, v) == QAdd(QAdd(QDot(u[1], v[1]), QDot(u[2], v[2])), QDot(u[3], v[3]))
-----------------------------------------------------------------------------
(* designs: parameters pass through a chain of steps to yield the permittivity *)
MirrorI(a, i) == i + (G.n[a] - 1 - 2 * Coord(G, a, i)) * Stride(G, a)
Orig(a, i) == IF 2 * Coord(G, a, i) >= G.n[a] THEN MirrorI(a, i) ELSE i                      \* the first half is copied
TransposeI(i) == 1 + Coord(G, 2, i) * Stride(G, 1) + Coord(G, 1, i) * Stride(G, 2)          \* square grids
Step(s, r) ==
  CASE s.t = "affine" -> [i \in 1..Len(r) |-> QAdd(s.c, QMul(s.m, r[i]))]
    [] s.t = "square" -> [i \in 1..Len(r) |-> QAdd(s.c, QMul(s.m, QMul(r[i], r[i])))]
    [] s.t = "mirror" -> [i \in 1..Len(r) |-> QMul(QHalf, QAdd(r[i], r[MirrorI(s.a, i)]))]
    [] s.t = "diag"   -> [i \in 1..Len(r) |-> QMul(QHalf, QAdd(r[i], r[TransposeI(i)]))]
    [] s.t = "copy"   -> [i \in 1..Len(r) |-> r[Orig(s.a, i)]]
    [] s.t = "mask"   -> [i \in 1..Len(r) |-> QAdd(QMul(s.m[i], r[i]), QMul(QSub(Q1, s.m[i]), s.c[i]))]
    [] s.t = "boxes"  -> [i \in 1..Size(G) |-> QAdd(s.c, LET h(j) == QMul(r[j], s.m[j][i]) IN QSumTo(h, Len(r)))]
\* tangent of a step at r along d
StepD(s, r, d) ==
  CASE s.t = "affine" -> [i \in 1..Len(r) |-> QMul(s.m, d[i])]
    [] s.t = "square" -> [i \in 1..Len(r) |-> QMul(QMul(QInt(2), s.m), QMul(r[i], d[i]))]
    [] s.t = "mirror" -> Step(s, d)
    [] s.t = "diag"   -> Step(s, d)
    [] s.t = "copy"   -> Step(s, d)
    [] s.t = "mask"   -> [i \in 1..Len(r) |-> QMul(s.m[i], d[i])]
    [] s.t = "boxes"  -> [i \in 1..Size(G) |-> LET h(j) == QMul(d[j], s.m[j][i]) IN QSumTo(h, Len(d))]
\* pull-back of a step
StepT(s, r, u) ==
  CASE s.t = "affine" -> [i \in 1..Len(r) |-> QMul(s.m, u[i])]
    [] s.t = "square" -> [i \in 1..Len(r) |-> QMul(QMul(QInt(2), s.m), QMul(r[i], u[i]))]
    [] s.t = "mirror" -> Step(s, u)
    [] s.t = "diag"   -> Step(s, u)
    [] s.t = "copy"   -> [i \in 1..Len(r) |-> IF Orig(s.a, i) # i THEN Q0 ELSE IF MirrorI(s.a, i) = i THEN u[i] ELSE QAdd(u[i], u[MirrorI(s.a, i)])]
    [] s.t = "mask"   -> [i \in 1..Len(r) |-> QMul(s.m[i], u[i])]
    [] s.t = "boxes"  -> [j \in 1..Len(r) |-> QDot(s.m[j], u)]
RECURSIVE Design(_, _, _), DesignD(_, _, _, _), DesignT(_, _, _, _)
Design(ch, j, r) == IF j > Len(ch) THEN r ELSE Design(ch, j + 1, TLCEval(Step(ch[j], r)))
DesignD(ch, j, r, d) == IF j > Len(ch) THEN d ELSE DesignD(ch, j + 1, TLCEval(Step(ch[j], r)), TLCEval(StepD(ch[j], r, d)))
DesignT(ch, j, r, u) == IF j > Len(ch) THEN u ELSE TLCEval(StepT(ch[j], r, DesignT(ch, j + 1, TLCEval(Step(ch[j], r)), u)))
\* transpose of averaging the permittivity onto the field positions
AvgNext(a, u) == TLCEval([i \in 1..Size(G) |-> QMul(QHalf, QAdd(u[i], u[NextI(G, a, i)]))])
EpsTT(u) == FAdd(FAdd(AvgNext(2, u[1]), AvgNext(1, u[2])), AvgNext(1, AvgNext(2, u[3])))
-----------------------------------------------------------------------------
(* simulations: kind "te", "tm" (proper operator), "tmx" (differences          *)
(* exchanged), "full"                                                          *)
E3(f) == <<Z, Z, f>>
Oper(kind, g, et, v) == CASE kind = "te" -> <<OpEz(g, P.k0, et, v[1])>>
                          [] kind = "tm" -> <<OpHz(g, P.k0, et, v[1])>>
                          [] kind = "tmx" -> <<OpHzX(g, P.k0, et, v[1])>>
                          [] kind = "full" -> Maxwell(g, P.k0, et, v)
\* the other field, a function of the primary one
Second(kind, et, v) == CASE kind = "te" -> VScale(QInv(QNeg(IK)), CurlE(G, E3(v[1])))
                         [] kind \in {"tm", "tmx"} -> VDiv(VScale(QInv(IK), CurlH(G, E3(v[1]))), et)
                         [] kind = "full" -> VScale(QInv(QNeg(IK)), CurlE(G, v))
\* transpose of Second
SecondT(kind, et, u) == CASE kind = "te" -> <<VScale(QInv(QNeg(IK)), CurlH(GC, u))[3]>>
                          [] kind \in {"tm", "tmx"} -> <<VScale(QInv(IK), CurlE(GC, VDiv(u, et)))[3]>>
                          [] kind = "full" -> VScale(QInv(QNeg(IK)), CurlH(GC, u))
Dots(u, v) == LET h(c) == QDot(u[c], v[c]) IN QSumTo(h, Len(u))
SubF(u, v) == [c \in 1..Len(u) |-> FSub(u[c], v[c])]
\* gradient with respect to the permittivity at the field positions
GradEt(kind, et, f, lam, gs, sec) ==
  CASE kind = "te" -> <<Z, Z, FScale(K2, FMul(lam[1], f[1]))>>
    [] kind = "full" -> VScale(K2, VMul(lam, f))
    [] kind = "tmx" -> VSub(<<FDiv(FDiv(FMul(DF(GC, 2, lam[1]), DF(G, 2, f[1])), et[1]), et[1]), FDiv(FDiv(FMul(DF(GC, 1, lam[1]), DF(G, 1, f[1])), et[2]), et[2]), Z>>,
                            VDiv(VMul(gs, sec), et))
    [] kind = "tm" -> VSub(<<FDiv(FDiv(FMul(DB(GC, 2, lam[1]), DB(G, 2, f[1])), et[1]), et[1]), FDiv(FDiv(FMul(DB(GC, 1, lam[1]), DB(G, 1, f[1])), et[2]), et[2]), Z>>,
                           VDiv(VMul(gs, sec), et))
RealF(u) == [i \in 1..Len(u) |-> QRe(u[i])]
Answer(kind) ==
  LET p == TLCEval(Design(P.chain, 1, P.rho))
      et == TLCEval(EpsT(G, p))
      sec == TLCEval(Second(kind, et, P.f))
      gp == TLCEval(SubF(Oper(kind, GC, et, P.lam), SecondT(kind, et, P.gs)))      \* cotangent of the primary field
      ge == TLCEval(EpsTT(GradEt(kind, et, P.f, P.lam, P.gs, sec)))
  IN [kind |-> kind, p |-> p, et |-> et, sec |-> sec, gp |-> gp, ge |-> ge,
      src |-> LET s == Oper(kind, G, et, P.f) IN TLCEval([c \in 1..Len(s) |-> FScale(QInv(P.k0), s[c])]),
      grad |-> RealF(DesignT(P.chain, 1, P.rho, ge)), cost |-> QRe(QAdd(Dots(gp, P.f), VDot(P.gs, sec)))]
Kinds == IF P.kind = "tm" THEN {"tm", "tmx"} ELSE {P.kind}
-----------------------------------------------------------------------------
Init == pi \in 0..Len(Plan.probs) /\ ans = << >> /\ hist = << >> /\ pend = {}
Differentiate(kind) == /\ pi > 0 /\ ans = << >> /\ UNCHANGED <<pi, hist, pend>>
  /\ ans' = Answer(kind)
  /\ PrintT("@@" \o ToJson([pi |-> pi, kind |-> kind, p |-> ans'.p, src |-> ans'.src, sec |-> ans'.sec, gp |-> ans'.gp, grad |-> ans'.grad, ge |-> ans'.ge, cost |-> ans'.cost]))
\* one process: <<"F", r>> simulates request r and keeps its pull-back, <<"B", r>> evaluates a pending pull-back
Forward(r) == /\ pi = 0 /\ Len(hist) < Plan.depth /\ r \notin pend
              /\ hist' = Append(hist, <<"F", r>>) /\ pend' = pend \union {r} /\ UNCHANGED <<pi, ans>>
Back(r) == /\ pi = 0 /\ Len(hist) < Plan.depth /\ r \in pend
           /\ hist' = Append(hist, <<"B", r>>) /\ UNCHANGED <<pi, pend, ans>>
Finish == /\ pi = 0 /\ Len(hist) = Plan.depth /\ ans = << >> /\ hist[Plan.depth][1] = "B"
          /\ \A i \in 1..(Plan.depth - 1) : hist[i] # hist[i + 1]
          /\ ans' = <<1>> /\ UNCHANGED <<pi, hist, pend>>
          /\ PrintT("@@" \o ToJson([hist |-> hist]))
Next == (\E kind \in (IF pi > 0 THEN Kinds ELSE {}) : Differentiate(kind)) \/ (\E r \in 1..Plan.reqs : Forward(r) \/ Back(r)) \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == pi > 0 /\ ans # << >>
\* lam is the adjoint field: it turns perturbations of the equation into perturbations of the cost
Adjoint == Done => \A j \in 1..Len(P.probe) : LET v == P.probe[j] IN
             Dots(P.lam, Oper(ans.kind, G, ans.et, v)) = QAdd(Dots(ans.gp, v), VDot(P.gs, Second(ans.kind, ans.et, v)))
\* averaging and its transpose
Averages == Done => \A j \in 1..Len(P.dirs) : LET d == DesignD(P.chain, 1, P.rho, P.dirs[j]) IN
             LET w == GradEt(ans.kind, ans.et, P.f, P.lam, P.gs, ans.sec) IN VDot(w, EpsT(G, d)) = QDot(ans.ge, d)
\* tangents (the derivative of the residual and of the secondary field along a direction of the design) agree with the gradient
TangentOper(kind, et, ed, f) ==
  CASE kind = "te" -> <<FScale(QNeg(K2), FMul(ed[3], f[1]))>>
    [] kind = "full" -> VScale(QNeg(K2), VMul(ed, f))
    [] kind = "tm" -> LET u(c) == FDiv(FDiv(ed[c], et[c]), et[c]) IN <<FAdd(DF(G, 1, FMul(DB(G, 1, f[1]), u(2))), DF(G, 2, FMul(DB(G, 2, f[1]), u(1))))>>
    [] kind = "tmx" -> LET u(c) == FDiv(FDiv(ed[c], et[c]), et[c]) IN <<FAdd(DB(G, 1, FMul(DF(G, 1, f[1]), u(2))), DB(G, 2, FMul(DF(G, 2, f[1]), u(1))))>>
TangentSecond(kind, et, ed, sec) == IF kind \in {"te", "full"} THEN VZero(G) ELSE VScale(QInt(-1), VDiv(VMul(sec, ed), et))
Tangent == Done => \A j \in 1..Len(P.dirs) :
             LET ed == EpsT(G, DesignD(P.chain, 1, P.rho, P.dirs[j])) IN
             QDot(ans.grad, P.dirs[j]) = QRe(QSub(VDot(P.gs, TangentSecond(ans.kind, ans.et, ed, ans.sec)), Dots(P.lam, TangentOper(ans.kind, ans.et, ed, P.f))))
\* the operator of an incremented permittivity differs by its tangent, up to the second order term (none for te and full)
Secant == (Done /\ P.kind \in {"te", "full"}) => \A j \in 1..Len(P.dirs) :
             LET d == DesignD(P.chain, 1, P.rho, P.dirs[j])
                 e2 == EpsT(G, FAdd(ans.p, d)) IN
             SubF(Oper(ans.kind, G, e2, P.f), Oper(ans.kind, G, ans.et, P.f)) = TangentOper(ans.kind, ans.et, EpsT(G, d), P.f)
\* 1/(x+d) - 1/x = -d/x^2 * x/(x+d): the operator is linear in the reciprocal permittivity
SecantR == (Done /\ P.kind = "tm") => \A j \in 1..Len(P.dirs) :
             LET ed == ans.et                                                       \* double the permittivity: the increment is half of the tangent
                 e2 == VAdd(ans.et, ed) IN
             [c \in {1} |-> FScale(QInt(2), FSub(Oper(ans.kind, G, e2, P.f)[c], Oper(ans.kind, G, ans.et, P.f)[c]))] = TangentOper(ans.kind, ans.et, ed, P.f)
Pending == pi = 0 => /\ \A i \in 1..Len(hist) : hist[i][1] = "B" => \E j \in 1..(i - 1) : hist[j] = <<"F", hist[i][2]>>
=============================================================================
