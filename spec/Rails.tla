------------------------------- MODULE Rails -------------------------------
(* Wide circuits.  Every splitter of a coupler is at one of its extremes: it  *)
(* lets both rails pass ("bar", 0) or exchanges them with a quarter turn      *)
(* ("cross", 1).  The light of one input rail then stays on a single rail, so *)
(* the exact field of the whole circuit is a list: where the light of input   *)
(* k is, the phase it collected (in sixteenths of a turn) and how often it    *)
(* was halved by a lossy shifter -- for circuits of hundreds of rails.        *)
(* One physical layer per step, forward, and backward through the same layers.*)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)   \* n, ncols, style, nodes (col, top, bottom, l, r, th, ph, at, ap), gam
VARIABLES ci, dir, step, field, snaps, fsnaps
vars == <<ci, dir, step, field, snaps, fsnaps>>
C == Plan[ci]
Turn == 16
NSteps == 4 * C.ncols + 1
Layers == <<"phi", "left", "theta", "right">>
ColNodes(c) == SelectSeq(C.nodes, LAMBDA nd : nd.col = c)
\* the coupler of every rail in a column (0: the rail runs straight)
Lookup(nodes) == LET tops == [i \in 1..Len(nodes) |-> nodes[i].top]
                     bots == [i \in 1..Len(nodes) |-> nodes[i].bottom]
                 IN [r \in 1..C.n |-> IF \E i \in 1..Len(nodes) : tops[i] = r \/ bots[i] = r
                                      THEN CHOOSE i \in 1..Len(nodes) : tops[i] = r \/ bots[i] = r ELSE 0]
\* <<phase, halvings>> of a shifter layer on the top (bottom) rail of its coupler.
\* Angles th, ph count eighths of a turn, so half of such an angle counts sixteenths.
Theta(nd, top) ==
  CASE C.style = "top"    -> IF top THEN <<2 * nd.th, nd.at>> ELSE <<0, 0>>
    [] C.style = "bottom" -> IF top THEN <<0, 0>> ELSE <<2 * nd.th, nd.at>>
    [] OTHER              -> IF top THEN <<nd.th, nd.at>> ELSE <<-nd.th, 0>>
Phi(nd, top) ==
  CASE C.style = "top"          -> IF top THEN <<2 * nd.ph, nd.ap>> ELSE <<0, 0>>
    [] C.style = "bottom"       -> IF top THEN <<0, 0>> ELSE <<2 * nd.ph, nd.ap>>
    [] C.style = "differential" -> IF top THEN <<-nd.ph, nd.ap>> ELSE <<nd.ph, nd.ap>>
    [] OTHER                    -> <<2 * nd.ph, nd.ap>>
Split(x, s, nd) == IF s = 0 THEN x ELSE <<nd.top + nd.bottom - x[1], (x[2] + Turn \div 4) % Turn, x[3]>>
Shifted(x, f) == <<x[1], (x[2] + f[1]) % Turn, x[3] + f[2]>>
Cross(layer, nd, x) ==
  CASE layer = "left"  -> Split(x, nd.l, nd)
    [] layer = "right" -> Split(x, nd.r, nd)
    [] layer = "theta" -> Shifted(x, Theta(nd, x[1] = nd.top))
    [] layer = "phi"   -> Shifted(x, Phi(nd, x[1] = nd.top))
Apply(layer, nodes) ==
  LET on == Lookup(nodes)
  IN [k \in 1..Len(field) |-> LET x == field[k] IN IF on[x[1]] = 0 THEN x ELSE Cross(layer, nodes[on[x[1]]], x)]
Screen == [k \in 1..Len(field) |-> Shifted(field[k], <<2 * C.gam[field[k][1]], 0>>)]
Start(n) == [k \in 1..n |-> <<k, 0, 0>>]
Init == /\ ci \in 1..Len(Plan) /\ dir = "fwd" /\ step = 0
        /\ field = Start(Plan[ci].n) /\ snaps = <<field>> /\ fsnaps = << >>
Record(f) == field' = f /\ snaps' = Append(snaps, f)
Forward == /\ dir = "fwd" /\ step < NSteps
           /\ Record(IF step = NSteps - 1 THEN Screen ELSE Apply(Layers[1 + (step % 4)], ColNodes(step \div 4)))
           /\ step' = step + 1 /\ UNCHANGED <<ci, dir, fsnaps>>
TurnAround == /\ dir = "fwd" /\ step = NSteps
              /\ dir' = "back" /\ step' = 0 /\ fsnaps' = snaps
              /\ field' = Start(C.n) /\ snaps' = <<Start(C.n)>> /\ UNCHANGED ci
Backward == /\ dir = "back" /\ step < NSteps
            /\ Record(IF step = 0 THEN Screen
                      ELSE LET j == NSteps - 1 - step IN Apply(Layers[1 + (j % 4)], ColNodes(j \div 4)))
            /\ step' = step + 1 /\ UNCHANGED <<ci, dir, fsnaps>>
Next == Forward \/ TurnAround \/ Backward
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the lights of different inputs are never on the same rail: without losses the power of any input is conserved
OneEach == \A r \in 1..C.n : \E k \in 1..C.n : field[k][1] = r
\* light sent back from where input k came out takes the same way: the backward transfer is the transpose
Reciprocal == (dir = "back" /\ step = NSteps) =>
  \A k \in 1..C.n : LET out == fsnaps[NSteps + 1][k] IN field[out[1]] = <<k, out[2], out[3]>>
\* losses only accumulate
Fades == [][dir' = dir => \A k \in 1..C.n : field'[k][3] >= field[k][3]]_vars
Emit == (dir = "back" /\ step = NSteps) => PrintT("@@" \o ToJson([ci |-> ci, fwd |-> fsnaps, back |-> snaps]))
=============================================================================
