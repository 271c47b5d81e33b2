------------------------------ MODULE Coupler ------------------------------
(* Single couplers.  A coupler of one of the library's models is put together *)
(* part by part on two rails (in either order, not necessarily neighbours) of *)
(* a bus of n rails, with any of the exact settings of the plan:              *)
(*   mzi   : phase and loss, left splitter, phase and loss, right splitter    *)
(*   mmi   : phase, one tunable splitter, loss after it                       *)
(*   ideal : real splitter of cross ratio s, phase after it                   *)
(*   phase : a pair of phases           left, right : one splitter            *)
(* The state is the exact transfer of the parts placed so far, together with  *)
(* the power each input has lost on the way.                                  *)
EXTENDS Optics, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)  \* places (n, top, bottom), phases, splits <<cos, sin>>, amps, kinds
VARIABLES kind, place, parts, m, lost
vars == <<kind, place, parts, m, lost>>
Parts(k) == CASE k = "mzi"   -> <<"phase", "loss", "split", "phase", "loss", "split">>
              [] k = "mmi"   -> <<"phase", "split", "loss">>
              [] k = "ideal" -> <<"real", "phase">>
              [] k = "phase" -> <<"phase", "phase2">>
              [] OTHER       -> <<"split">>
P == Plan.places[place]
Top == P[2]  Bot == P[3]  N == P[1]
Rows(t, b) == [m EXCEPT ![Top] = t, ![Bot] = b]
Init == /\ kind \in 1..Len(Plan.kinds) /\ place \in 1..Len(Plan.places) /\ parts = << >>
        /\ m = Ident(Plan.places[place][1]) /\ lost = [k \in 1..Plan.places[place][1] |-> Zero]
Seq1 == Parts(Plan.kinds[kind])
Here == Seq1[Len(parts) + 1]
Place(i, rows) == parts' = Append(parts, i) /\ m' = rows /\ UNCHANGED <<kind, place>>
Phase == \E i \in 1..Len(Plan.phases) :
           /\ Place(i, Rows(ScaleRow(m[Top], Plan.phases[i]), m[Bot])) /\ UNCHANGED lost
Phase2 == \E i \in 1..Len(Plan.phases) :
           /\ Place(i, Rows(m[Top], ScaleRow(m[Bot], Plan.phases[i]))) /\ UNCHANGED lost
Loss == \E i \in 1..Len(Plan.amps) :
           LET a == Plan.amps[i]
           IN /\ Place(i, Rows(ScaleRow(m[Top], a), m[Bot]))
              /\ lost' = [k \in 1..N |-> Add(lost[k], Mul(Sub(One, Mul(a, a)), Abs2(m[Top][k])))]
Split == \E i \in 1..Len(Plan.splits) :
           LET c == Plan.splits[i][1]  s == Plan.splits[i][2]
           IN /\ Place(i, Rows(SplitTop(c, s, m[Top], m[Bot]), SplitBot(c, s, m[Top], m[Bot]))) /\ UNCHANGED lost
\* a splitter between the sum and the difference of its rails
Real == \E i \in 1..Len(Plan.splits) :
          LET c == Plan.splits[i][1]  s == Plan.splits[i][2]
          IN /\ Place(i, Rows([k \in 1..N |-> Add(Mul(c, m[Top][k]), Mul(s, m[Bot][k]))],
                              [k \in 1..N |-> Sub(Mul(s, m[Top][k]), Mul(c, m[Bot][k]))])) /\ UNCHANGED lost
Next == /\ Len(parts) < Len(Seq1)
        /\ CASE Here = "phase" -> Phase [] Here = "phase2" -> Phase2 [] Here = "loss" -> Loss
             [] Here = "split" -> Split [] Here = "real" -> Real
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done == Len(parts) = Len(Seq1)
Dot2(a, b) == LET g(k) == Mul(a[k], Conj(b[k])) IN SumTo(g, N)
Col(k) == [r \in 1..N |-> m[r][k]]
\* what comes out and what was lost is what went in
Accounted == \A k \in 1..N : Add(ColPower(m, k), lost[k]) = One
\* without losses inputs which do not overlap come out not overlapping
Unitary == (\A k \in 1..N : lost[k] = Zero) =>
             \A i, j \in 1..N : Dot2(Col(i), Col(j)) = IF i = j THEN One ELSE Zero
\* the other rails run straight
Others == \A r, k \in 1..N : ({r, k} \ {Top, Bot} # {}) => m[r][k] = (IF r = k THEN One ELSE Zero)
\* a Mach-Zehnder coupler crosses the fraction its splitters and its phase prescribe, the same both ways
IsMzi == Done /\ Plan.kinds[kind] = "mzi"
L == Plan.splits[parts[3]]  R == Plan.splits[parts[6]]  Theta == Plan.phases[parts[4]]
Terms == <<Mul(R[1], L[1]), Mul(R[1], L[2]), Mul(R[2], L[1]), Mul(R[2], L[2])>>
TwoCos(e) == Add(e, Conj(e))
Fraction == Add(Add(Mul(Terms[2], Terms[2]), Mul(Terms[3], Terms[3])), Mul(Mul(Terms[2], Terms[3]), TwoCos(Theta)))
Crossed == (IsMzi /\ Plan.amps[parts[2]] = One /\ Plan.amps[parts[5]] = One)
             => (Abs2(m[Top][Bot]) = Fraction /\ Abs2(m[Bot][Top]) = Fraction)
\* so the attainable fractions lie between (cs - sc)^2 (half a turn) and (cs + sc)^2 (no phase)
Ends == LET p == Add(Terms[2], Terms[3])  q == Sub(Terms[2], Terms[3]) IN <<Mul(q, q), Mul(p, p)>>
Attainable == IsMzi => /\ Sub(Ends[2], Fraction) = Mul(Mul(Terms[2], Terms[3]), Sub(RInt(2), TwoCos(Theta)))
                       /\ Sub(Fraction, Ends[1]) = Mul(Mul(Terms[2], Terms[3]), Add(RInt(2), TwoCos(Theta)))
\* an ideal coupler crosses the fraction s
Ratio == (Done /\ Plan.kinds[kind] = "ideal") =>
           LET s == Plan.splits[parts[1]][2] IN Abs2(m[Top][Bot]) = Mul(s, s) /\ Abs2(m[Bot][Top]) = Mul(s, s)
Emit == Done => PrintT("@@" \o ToJson([kind |-> Plan.kinds[kind], place |-> P, parts |-> parts, m |-> m,
                                        terms |-> IF IsMzi THEN Terms ELSE << >>,
                                        ends |-> IF IsMzi THEN Ends ELSE << >>,
                                        fraction |-> IF IsMzi THEN Fraction ELSE Zero]))
=============================================================================
