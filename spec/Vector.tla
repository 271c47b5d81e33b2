------------------------------- MODULE Vector -------------------------------
(* What programming a vector unit must achieve, in exact integer powers.      *)
(* The behaviour sends the target vector into the unit, one column at a time. *)
(* A programmed coupler moves the whole power of its two rails to its bottom  *)
(* rail, whatever the relative phase, provided the fraction arriving on the   *)
(* top rail is within the reach [lo, hi] (in 1/10000) of its two splitters.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, col, pw, log, feas, over
vars == <<pi, col, pw, log, feas, over>>
P == Plan[pi]
\* P: n, ncols, pw (sequence of integer powers), nodes: [id, top, bot (1-based), col, lo, hi]
RECURSIVE SumS(_, _)
SumS(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumS(s, k - 1)
Tot(s) == SumS(s, Len(s))

Init == /\ pi \in 1..Len(Plan) /\ col = 0 /\ pw = P.pw /\ log = <<P.pw>> /\ feas = TRUE /\ over = FALSE
NodesAt(c) == {P.nodes[i] : i \in {i \in 1..Len(P.nodes) : P.nodes[i].col = c}}
\* <<digits, remainder>> of 10000 t / s by long division (the powers may be large)
RECURSIVE Digits(_, _, _)
Digits(t, s, k) == IF k = 0 THEN <<0, t>>
                   ELSE LET d == (10 * t) \div s   n == Digits((10 * t) % s, s, k - 1) IN <<d * 10^(k - 1) + n[1], n[2]>>
Reach(d) == LET t == pw[d.top]  s == pw[d.top] + pw[d.bot] IN
            s = 0 \/ LET f == Digits(t, s, 4) IN d.lo <= f[1] /\ (f[1] < d.hi \/ (f[1] = d.hi /\ f[2] = 0))
Cross ==
  /\ ~over /\ col < P.ncols
  /\ LET N == NodesAt(col)
         new == [r \in 1..Len(pw) |->
                  IF \E d \in N : d.top = r THEN 0
                  ELSE IF \E d \in N : d.bot = r THEN LET d == CHOOSE d \in N : d.bot = r IN pw[d.top] + pw[d.bot]
                  ELSE pw[r]]
     IN /\ pw' = new /\ log' = Append(log, new)
        /\ feas' = (feas /\ \A d \in N : Reach(d))
  /\ col' = col + 1
  /\ UNCHANGED <<pi, over>>
Stop ==
  /\ ~over /\ col = P.ncols
  /\ over' = TRUE
  /\ PrintT("@@" \o ToJson([pi |-> pi, log |-> log, feas |-> feas]))
  /\ UNCHANGED <<pi, col, pw, log, feas>>
Next == Cross \/ Stop
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
PowerKept == Tot(pw) = Tot(P.pw)
\* all power ends on the last of the n rails the vector occupies
Routed == over => (pw[P.n] = Tot(P.pw) /\ \A r \in 1..Len(pw) : r # P.n => pw[r] = 0)
=============================================================================
