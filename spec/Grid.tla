------------------------------- MODULE Grid -------------------------------
(* Histories of permittivity edits on a grid.  The state is the permittivity  *)
(* of every cell; queries (mask, slice, view) never change it.                *)
EXTENDS Cells, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, eps, hist
vars == <<pi, eps, hist>>
G == Plan[pi]
Ops == G.ops
Mask(o) == {<<o.mask[i][1], o.mask[i][2]>> : i \in 1..Len(o.mask)}
Cover(o) == CASE o.op = "set" -> Cells(G, o.c, o.z)
              [] o.op = "fill" -> FillCells(G, o.h)
              [] o.op = "add" -> AddCells(G, Mask(o), o.zmin, o.t)
              [] o.op = "assign" -> AllCells(G)
Ini(p) == 1 + ((p[1] + 2 * p[2] + 3 * p[3]) % 4)          \* distinct initial values
Value(o, p) == IF o.op = "assign" THEN 20 + Ini(p) ELSE o.v
Init == pi \in 1..Len(Plan) /\ hist = << >> /\ eps = [p \in AllCells(Plan[pi]) |-> Ini(p)]
Edit(i) == /\ Len(hist) < G.depth
           /\ eps' = [p \in AllCells(G) |-> IF p \in Cover(Ops[i]) THEN Value(Ops[i], p) ELSE eps[p]]
           /\ hist' = Append(hist, i)
           /\ UNCHANGED pi
Next == \E i \in 1..Len(Ops) : Edit(i)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every cell holds the value of the last edit that covers it
RECURSIVE Last(_, _)
Last(p, k) == IF k = 0 THEN Ini(p) ELSE IF p \in Cover(Ops[hist[k]]) THEN Value(Ops[hist[k]], p) ELSE Last(p, k - 1)
LastWriter == \A p \in AllCells(G) : eps[p] = Last(p, Len(hist))
NoTies == \A i \in 1..Len(Ops) : Ops[i].op = "set" =>
            \A a \in 1..G.ndim : ~Tie(Ops[i].c[a], G.sp[a]) /\ ~Tie(Ops[i].z[a], G.sp[a])
\* boxes of whole pixels
Aligned == hist = << >> => /\ \A b \in 1..Len(G.boxes) : AlignedCells(G, G.boxes[b].c, G.boxes[b].z)
Flat == [i \in 1..(G.shape[1] * G.shape[2] * G.shape[3]) |->
           LET q == i - 1 IN eps[<<q \div (G.shape[2] * G.shape[3]), (q \div G.shape[3]) % G.shape[2], q % G.shape[3]>>]]
FlatOf(S) == [i \in 1..(G.shape[1] * G.shape[2] * G.shape[3]) |->
           LET q == i - 1 IN IF <<q \div (G.shape[2] * G.shape[3]), (q \div G.shape[3]) % G.shape[2], q % G.shape[3]>> \in S THEN 1 ELSE 0]
\* printed once per state (an always-true invariant)
Emit == PrintT("@@" \o ToJson([pi |-> pi, hist |-> hist, eps |-> Flat,
           boxes |-> IF hist = << >> THEN [b \in 1..Len(G.boxes) |-> FlatOf(Cells(G, G.boxes[b].c, G.boxes[b].z))] ELSE << >>,
           boxesk |-> IF hist = << >> THEN [b \in 1..Len(G.boxes) |-> FlatOf(CellsBy(G, G.boxes[b].c, G.boxes[b].z, CentreEven))] ELSE << >>]))
=============================================================================
