-------------------------------- MODULE Flow --------------------------------
(* Moving phase shifts forward through a grid of couplers.  Rails 1..n cross  *)
(* L layers; layer i has a phase shift on every rail followed by couplers on  *)
(* the rail pairs <<a, a+1>>, a = 1 (or 2) + 2k for odd (even) i; a last      *)
(* screen of phases follows.  Light on one coupled rail may leave on either   *)
(* rail, with whatever amplitudes, so the grid's function is, for arbitrary   *)
(* couplers, the table of the total phases of all paths.  A push takes the    *)
(* common phase of every pair (and the phase of every uncoupled rail) of one  *)
(* layer to the next.  Phases count in units of a turn / M.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)     \* n, L, M, p (p[i][r]: layer i, rail r; p[L + 1] is the screen)
VARIABLES pi, cur, k, at, gap
vars == <<pi, cur, k, at, gap>>
P == Plan[pi]
N == P.n
First(i) == IF i % 2 = 1 THEN 1 ELSE 2
\* the upper rail of the pair of rail r in layer i, 0 when r is not coupled there
Upper(i, r) == LET u == IF (r - First(i)) % 2 = 0 THEN r ELSE r - 1 IN IF u >= First(i) /\ u + 1 <= N THEN u ELSE 0
\* the phase which travels on from rail r of layer i
Common(i, r) == IF Upper(i, r) = 0 THEN cur[i][r] ELSE cur[i][Upper(i, r) + 1]
Init == /\ pi \in 1..Len(Plan) /\ cur = Plan[pi].p /\ k = 0 /\ at = <<0, 0>> /\ gap = 0
\* push the common phases out of layer k + 1
Push == /\ at[1] = 0 /\ k < P.L
        /\ cur' = [cur EXCEPT ![k + 1] = [r \in 1..N |-> (cur[k + 1][r] - Common(k + 1, r)) % P.M],
                              ![k + 2] = [r \in 1..N |-> (cur[k + 2][r] + Common(k + 1, r)) % P.M]]
        /\ k' = k + 1 /\ UNCHANGED <<pi, at, gap>>
\* follow any path through the grid as it was and as it is
Enter(r) == at[1] = 0 /\ at' = <<1, r>> /\ UNCHANGED <<pi, cur, k, gap>>
Cross(r) == /\ at[1] \in 1..P.L
            /\ r \in (IF Upper(at[1], at[2]) = 0 THEN {at[2]} ELSE {Upper(at[1], at[2]), Upper(at[1], at[2]) + 1})
            /\ gap' = (gap + cur[at[1]][at[2]] - P.p[at[1]][at[2]]) % P.M
            /\ at' = <<at[1] + 1, r>> /\ UNCHANGED <<pi, cur, k>>
Leave == /\ at[1] = P.L + 1
         /\ gap' = (gap + cur[at[1]][at[2]] - P.p[at[1]][at[2]]) % P.M
         /\ at' = <<P.L + 2, at[2]>> /\ UNCHANGED <<pi, cur, k>>
Next == Push \/ Leave \/ \E r \in 1..N : Enter(r) \/ Cross(r)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* no path changes its phase, whatever was pushed so far
SamePaths == at[1] = P.L + 2 => gap = 0
\* pushed layers have phases on the upper rails of pairs only
Differential == \A i \in 1..k : \A r \in 1..N : (Upper(i, r) = 0 \/ Upper(i, r) # r) => cur[i][r] = 0
\* the difference of a pair's phases is what its coupler sees: a push through keeps those of the layer it leaves
KeepsDifference == [][k' = k + 1 => \A r \in 1..N - 1 : Upper(k + 1, r) = r => (cur'[k + 1][r] - cur'[k + 1][r + 1] - cur[k + 1][r] + cur[k + 1][r + 1]) % P.M = 0]_vars
Emit == (k = P.L /\ at[1] = 0) => PrintT("@@" \o ToJson([pi |-> pi, p |-> cur]))
=============================================================================
