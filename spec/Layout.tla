------------------------------- MODULE Layout -------------------------------
(* Building a simulation from a layout (a pattern drawn in the plane), and    *)
(* the model of a component: one experiment per wavelength and input port.    *)
(* The construction is a history of steps; lengths are integers in a common   *)
(* unit.                                                                      *)
EXTENDS Cells, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, step, eps, rows
vars == <<pi, step, eps, rows>>
L == Plan[pi]
\* ---------------------------------------------------------------- the grid of a layout
Extent(l) == <<l.b[1] + 2 * l.bd[1], l.b[2] + 2 * l.bd[2], l.height>>
Dims(l) == IF l.height > 0 THEN 3 ELSE 2
Shape(l) == [a \in 1..3 |-> IF a <= Dims(l) THEN Extent(l)[a] \div l.sp[a] ELSE 1]
Geo(l) == [ndim |-> Dims(l), shape |-> Shape(l), sp |-> l.sp]
Mask(l) == {<<l.mask[i][1], l.mask[i][2]>> : i \in 1..Len(l.mask)}
Bottom(l) == IF l.zmin < 0 THEN l.sub ELSE l.zmin        \* by default a component lies on the substrate
\* ---------------------------------------------------------------- the history of steps
\* without a substrate, the cladding is the background of the whole layout
Background == step = 0 /\ eps' = [p \in AllCells(Geo(L)) |-> IF L.sub <= 0 THEN L.clad ELSE L.bg]
Rib == step = 1 /\ eps' = [p \in AllCells(Geo(L)) |-> IF L.rib > 0 /\ p \in FillCells(Geo(L), L.sub + L.rib) THEN L.core ELSE eps[p]]
Substrate == step = 2 /\ eps' = [p \in AllCells(Geo(L)) |-> IF L.sub > 0 /\ p \in FillCells(Geo(L), L.sub) THEN L.clad ELSE eps[p]]
Pattern == step = 3 /\ eps' = [p \in AllCells(Geo(L)) |-> IF p \in AddCells(Geo(L), Mask(L), Bottom(L), L.t) THEN L.core ELSE eps[p]]
Build == (Background \/ Rib \/ Substrate \/ Pattern) /\ step' = step + 1 /\ UNCHANGED <<pi, rows>>
\* one experiment after the other: wavelengths, then input ports in the order of the layout
Experiment == /\ step = 4 /\ Len(rows) < L.nwl * Len(L.ports)
              /\ rows' = Append(rows, <<1 + (Len(rows) \div Len(L.ports)), 1 + (Len(rows) % Len(L.ports))>>)
              /\ UNCHANGED <<pi, step, eps>>
Init == pi \in 1..Len(Plan) /\ step = 0 /\ eps = << >> /\ rows = << >>
Next == Build \/ Experiment
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* ports of the simulation: position and width in the plane as drawn, height and center of the component
Ports == [i \in 1..Len(L.ports) |-> [x |-> L.ports[i].x, y |-> L.ports[i].y, w |-> L.ports[i].w, a |-> L.ports[i].a,
                                     z2 |-> IF Dims(L) = 3 THEN 2 * Bottom(L) + L.t ELSE 0, h |-> IF Dims(L) = 3 THEN L.t ELSE 0]]
\* the finished stack, cell by cell
Height(p) == p[3] * L.sp[3]
Cake(p) == IF <<p[1], p[2]>> \in Mask(L) /\ (Dims(L) = 3 => Height(p) >= Bottom(L) /\ Height(p) < Bottom(L) + L.t) THEN L.core
           ELSE IF Dims(L) = 2 THEN L.clad
           ELSE IF Height(p) < L.sub THEN L.clad
           ELSE IF Height(p) < L.sub + L.rib THEN L.core
           ELSE IF L.sub > 0 THEN L.bg ELSE L.clad
Stack == step = 4 => \A p \in AllCells(Geo(L)) : eps[p] = Cake(p)
\* nothing below, beside or above the pattern is changed by it; a pattern without height changes nothing
OnlyPattern == [][step = 3 /\ step' = 4 => \A p \in AllCells(Geo(L)) : eps'[p] # eps[p] => <<p[1], p[2]>> \in Mask(L)]_vars
Fits == \A i \in 1..Len(L.ports) : L.ports[i].x >= 0 /\ L.ports[i].x <= Extent(L)[1] /\ L.ports[i].y >= 0 /\ L.ports[i].y <= Extent(L)[2]
\* every (wavelength, input) has exactly one experiment, in order
Table == \A i \in 1..Len(rows) : rows[i][1] \in 1..L.nwl /\ rows[i][2] \in 1..Len(L.ports)
                                 /\ \A j \in 1..Len(rows) : rows[i] = rows[j] => i = j
Sh == Shape(L)
Flat == [i \in 1..(Sh[1] * Sh[2] * Sh[3]) |-> LET q == i - 1 IN eps[<<q \div (Sh[2] * Sh[3]), (q \div Sh[3]) % Sh[2], q % Sh[3]>>]]
Emit == (step = 4 /\ Len(rows) = L.nwl * Len(L.ports)) =>
          PrintT("@@" \o ToJson([pi |-> pi, shape |-> Sh, eps |-> Flat, rows |-> rows, ports |-> Ports]))
=============================================================================
