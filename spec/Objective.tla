----------------------------- MODULE Objective -----------------------------
(* Design objectives, exactly.                                                *)
(*  "fid":  desired scattering parameters d and measured ones x (Gaussian      *)
(*          integers, one per measured port-mode pair): the power of x in the  *)
(*          normalised desired combination, F = |<d, x>|^2 / <d, d>, and its   *)
(*          blend with insertion loss (1 - w) F / <x, x> + w <x, x>.           *)
(*  "split": parameters x measured at a0, b0, b1, a1 (fed at a0): the share of *)
(*          b0 in the transmitted power, |b0|^2 / (|b0|^2 + |b1|^2).             *)
(*  "mat":  a target unitary u (up to a real factor) and any matrix v: the     *)
(*          squared error 1 - |tr u* v|^2 / (tr u* u  tr v* v).                *)
(* A behaviour applies a few transformations to the second argument (a common  *)
(* phase, a scale, an exchange of entries of both arguments, a change of one    *)
(* entry) and scores it after every step.                                      *)
EXTENDS GRat, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES gi, d, x, hist, score, emitted
vars == <<gi, d, x, hist, score, emitted>>
P == Plan[gi]
ToQ(z) == <<z[1], z[2], 1>>
Vec(s) == [i \in 1..Len(s) |-> ToQ(s[i])]
Norm2(v) == QInner(v, v)
Score(kind, a, b, w) ==
  LET ov == QAbs2(QInner(a, b))
      aa == Norm2(a)
      bb == Norm2(b)
  IN IF kind = "split" THEN QDiv(QAbs2(b[2]), QAdd(QAbs2(b[2]), QAbs2(b[3])))
     ELSE IF kind = "fid" THEN
       IF w = <<0, 1>> THEN QDiv(ov, aa)
       ELSE LET ww == QNorm(w[1], 0, w[2]) IN
            QAdd(QMul(QSub(Q1, ww), QDiv(ov, QMul(aa, bb))), QMul(ww, bb))
     ELSE QSub(Q1, QDiv(ov, QMul(aa, bb)))
Init == /\ gi \in 1..Len(Plan) /\ d = Vec(Plan[gi].d) /\ x = Vec(Plan[gi].x) /\ hist = << >> /\ emitted = FALSE
        /\ score = Score(Plan[gi].kind, Vec(Plan[gi].d), Vec(Plan[gi].x), Plan[gi].w)
Step(h, nd, nx) == /\ Len(hist) < P.depth /\ ~emitted
                   /\ Norm2(nx) # Q0 /\ Norm2(nd) # Q0
                   /\ P.kind = "split" => QAdd(QAbs2(nx[2]), QAbs2(nx[3])) # Q0
                   /\ d' = nd /\ x' = nx /\ hist' = Append(hist, h)
                   /\ score' = Score(P.kind, nd, nx, P.w)
                   /\ UNCHANGED <<gi, emitted>>
Scaled(v, z) == [i \in DOMAIN v |-> QMul(z, v[i])]
Swapped(v, i) == [v EXCEPT ![i] = v[i + 1], ![i + 1] = v[i]]
Phase == Step("phase", d, Scaled(x, QI))
Scale == Step("scale", d, Scaled(x, ToQ(P.z)))
Swap == \E i \in 1..(Len(d) - 1) : (P.kind = "fid" \/ P.swap) /\ P.kind # "split" /\ Step("swap", Swapped(d, i), Swapped(x, i))
Match == Step("match", d, d)
Bump == \E i \in {P.bump} : Step("bump", d, [x EXCEPT ![i] = QAdd(@, QI)])
Emit == /\ ~emitted /\ emitted' = TRUE /\ UNCHANGED <<gi, d, x, hist, score>>
        /\ PrintT("@@" \o ToJson([gi |-> gi, hist |-> hist, d |-> d, x |-> x, score |-> score,
             powers |-> [i \in DOMAIN x |-> QAbs2(x[i])], total |-> Norm2(x)]))
Next == Phase \/ Scale \/ Swap \/ Match \/ Bump \/ Emit
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Real(z) == z[2] = 0
Le(a, b) == LET s == QSub(b, a) IN s[1] >= 0
Prop(a, b) == \A i, j \in DOMAIN a : QMul(a[i], b[j]) = QMul(a[j], b[i])
Plain == P.w = <<0, 1>>
\* never more than the total power (fidelity), never outside [0, 1] (error); the bound is attained exactly by multiples
Bounded == /\ Real(score)
           /\ (P.kind = "fid" /\ Plain) => Le(Q0, score) /\ Le(score, Norm2(x))
           /\ P.kind \in {"mat", "split"} => Le(Q0, score) /\ Le(score, Q1)
Attained == /\ (P.kind = "fid" /\ Plain) => ((score = Norm2(x)) <=> Prop(d, x))
            /\ P.kind = "mat" => ((score = Q0) <=> Prop(d, x))
\* a common phase and a joint exchange of entries do not matter; a scale only through the power
Last == hist'[Len(hist')]
Invariance == [][(Len(hist') > Len(hist)) =>
   (/\ Last \in {"phase", "swap"} => score' = score
    /\ (Last = "scale" /\ P.kind = "split") => score' = score
    /\ (Last = "scale" /\ P.kind = "mat") => score' = score
    /\ (Last = "scale" /\ P.kind = "fid" /\ P.w = <<0, 1>>) => score' = QMul(score, QAbs2(ToQ(P.z))))]_vars
=============================================================================
