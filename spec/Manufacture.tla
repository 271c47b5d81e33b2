----------------------------- MODULE Manufacture -----------------------------
(* Frequency-domain problems with a known exact solution: the fields are       *)
(* chosen, the source that produces them is computed.  The simulator, given    *)
(* that source, must return exactly those fields.                              *)
(* Time convention exp(+i k0 t):                                               *)
(*    curl h = i k0 eps e + (electric source),  curl e = -i k0 h - (magnetic)  *)
EXTENDS Yee, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, k, e, h, src, srcx
vars == <<pi, k, e, h, src, srcx>>
P == Plan[pi]
G == P.g
Z == ZeroF(G)
IK == QMulI(P.k0)
Solution(kind, f, et) ==
  CASE kind = "full" -> LET hh == VScale(QInv(QNeg(IK)), CurlE(G, f))
                        IN [e |-> f, h |-> hh, src |-> VScale(QInv(P.k0), Maxwell(G, P.k0, et, f)), srcx |-> << >>]
    [] kind = "te" -> LET ev == <<Z, Z, f[1]>>
                          hh == VScale(QInv(QNeg(IK)), CurlE(G, ev))
                      IN [e |-> ev, h |-> hh, src |-> <<FScale(QInv(P.k0), OpEz(G, P.k0, et, f[1]))>>, srcx |-> << >>]
    [] kind = "tm" -> LET hv == <<Z, Z, f[1]>>
                          c == VScale(QInv(IK), CurlH(G, hv))
                          ev == <<FDiv(c[1], et[1]), FDiv(c[2], et[2]), Z>>
                      IN [e |-> ev, h |-> hv, src |-> <<FScale(QInv(P.k0), OpHz(G, P.k0, et, f[1]))>>,
                          srcx |-> <<FScale(QInv(P.k0), OpHzX(G, P.k0, et, f[1]))>>]
ET == EpsT(G, P.eps)
Init == pi \in 1..Len(Plan) /\ k = 0 /\ e = << >> /\ h = << >> /\ src = << >> /\ srcx = << >>
Solve == /\ k = 0 /\ k' = 1 /\ UNCHANGED pi
         /\ LET s == Solution(P.kind, P.f, ET) IN e' = s.e /\ h' = s.h /\ src' = s.src /\ srcx' = s.srcx
         /\ PrintT("@@" \o ToJson([pi |-> pi, what |-> "solution", e |-> e', h |-> h', src |-> src', srcx |-> srcx']))
\* conversions between the fields, also for fields varying as exp(-i beta z)
Convert == /\ k = 1 /\ k' = 2 /\ UNCHANGED <<pi, e, h, src, srcx>>
           /\ PrintT("@@" \o ToJson([pi |-> pi, what |-> "convert",
                e2h |-> VScale(QInv(QNeg(IK)), CurlE(G, P.f3)), h2ed |-> VScale(QInv(IK), CurlH(G, P.f3)),
                e2hb |-> VScale(QInv(QNeg(IK)), CurlEB(G, P.beta, P.f3)), h2edb |-> VScale(QInv(IK), CurlHB(G, P.beta, P.f3)), et |-> ET]))
Next == Solve \/ Convert
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Solved == k = 1
\* the discrete Maxwell equations with the computed source
Ampere == Solved => CASE P.kind = "full" -> CurlH(G, h) = VScale(QI, VAdd(VScale(P.k0, VMul(ET, e)), src))
                      [] P.kind = "te" -> CurlH(G, h) = VScale(QI, VAdd(VScale(P.k0, VMul(ET, e)), <<Z, Z, src[1]>>))
                      [] P.kind = "tm" -> CurlH(G, h) = VScale(IK, VMul(ET, e))
Faraday == Solved => CASE P.kind # "tm" -> CurlE(G, e) = VScale(QNeg(IK), h)
                       [] P.kind = "tm" -> CurlE(G, e) = VScale(QNeg(QI), VAdd(VScale(P.k0, h), <<Z, Z, src[1]>>))
\* with uniform permittivity exchanging the differences changes nothing
Uniform == \A i \in 1..Len(P.eps) : P.eps[i] = P.eps[1]
Exchange == (Solved /\ P.kind = "tm" /\ Uniform) => src = srcx
\* doubling the fields doubles the source
Linear == Solved => LET s == Solution(P.kind, VScale(<<2, 1, 1>>, IF P.kind = "full" THEN P.f ELSE <<P.f[1], Z, Z>>), ET)
                    IN s.src = [c \in 1..Len(src) |-> FScale(<<2, 1, 1>>, src[c])]
=============================================================================
