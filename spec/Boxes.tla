------------------------------- MODULE Boxes -------------------------------
(* Placement algebra of boxes: two boxes moved by translations and            *)
(* alignments, and block designs built from such placements.  Lengths are     *)
(* integers in a unit fine enough for half sizes (all sizes are even).        *)
EXTENDS Cells, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, box, hist, out
vars == <<pi, box, hist, out>>
P == Plan[pi]
Mx(b, a) == b.min[a] + b.size[a]
Ctr(b, a) == b.min[a] + b.size[a] \div 2
Move(b, dx, dy) == [b EXCEPT !.min = <<b.min[1] + dx, b.min[2] + dy>>]
Align(b, c) == Move(b, c[1] - Ctr(b, 1), c[2] - Ctr(b, 2))
CtrOf(b) == <<Ctr(b, 1), Ctr(b, 2)>>
\* low = align b's low edge, opposite = to the other box's opposite edge
EdgeTo(b, a, low, p) == IF a = 1 THEN Move(b, p - (IF low THEN b.min[1] ELSE Mx(b, 1)), 0)
                        ELSE Move(b, 0, p - (IF low THEN b.min[2] ELSE Mx(b, 2)))
EdgeOf(c, a, low, opp) == IF low = opp THEN Mx(c, a) ELSE c.min[a]
AlignEdge(b, a, c, low, opp) == EdgeTo(b, a, low, EdgeOf(c, a, low, opp))

Apply(bs, o) ==
  CASE o.op = "translate" -> [bs EXCEPT ![o.b] = Move(@, o.dx, o.dy)]
    [] o.op = "align"     -> [bs EXCEPT ![o.b] = Align(@, CtrOf(bs[o.c]))]
    [] o.op = "alignto"   -> [bs EXCEPT ![o.b] = Align(@, o.p)]
    [] o.op = "halign"    -> [bs EXCEPT ![o.b] = AlignEdge(@, 1, bs[o.c], o.low, o.opp)]
    [] o.op = "valign"    -> [bs EXCEPT ![o.b] = AlignEdge(@, 2, bs[o.c], o.low, o.opp)]
    [] o.op = "halignto"  -> [bs EXCEPT ![o.b] = EdgeTo(@, 1, o.low, o.p)]
    [] o.op = "valignto"  -> [bs EXCEPT ![o.b] = EdgeTo(@, 2, o.low, o.p)]
    [] o.op = "copy"      -> Append(bs, bs[o.b])        \* a new box, equal now, independent later

\* ---------------------------------------------------------------- block designs (2D)
Dsg == P.design
Wg0 == LET w == Align([min |-> <<0, 0>>, size |-> Dsg.wg, mat |-> 1], <<(P.g.sp[1] * P.g.shape[1]) \div 2, (P.g.sp[2] * P.g.shape[2]) \div 2>>)
       IN IF Dsg.wgh > 0 THEN EdgeTo(w, 2, TRUE, Dsg.wgh) ELSE w
Half == IF Dsg.gap > 0 THEN Dsg.gap \div 2 + Dsg.wg[1] \div 2 ELSE 0
WL == Move(Wg0, 0 - Half, 0)
WR == Move(Wg0, Half, 0)
Blk == [min |-> <<0, 0>>, size |-> Dsg.blk, mat |-> 2]
Base == Wg0.min[2]
BL == IF Dsg.vertical THEN Move(AlignEdge(Align(Blk, CtrOf(WL)), 2, WL, TRUE, TRUE), 0, Dsg.sep[1])
      ELSE Move(AlignEdge(EdgeTo(Blk, 2, TRUE, Base), 1, WL, FALSE, TRUE), 0 - Dsg.sep[1], 0)
BR == IF Dsg.vertical THEN Move(AlignEdge(Align(Blk, CtrOf(WR)), 2, WR, TRUE, TRUE), 0, Dsg.sep[2])
      ELSE Move(AlignEdge(EdgeTo(Blk, 2, TRUE, Base), 1, WR, TRUE, TRUE), Dsg.sep[2], 0)
Placed == IF Dsg.hasblk THEN <<WL, WR, BL, BR>> ELSE <<WL, WR>>
CellsOf(b) == Cells(P.g, <<Ctr(b, 1), Ctr(b, 2), 0>>, <<b.size[1], b.size[2], 0>>)
RowTop(h) == h \div P.g.sp[2]
BaseEps(p) == IF Dsg.sub > 0 /\ p[2] < RowTop(Dsg.sub) THEN 3
              ELSE IF Dsg.rib > 0 /\ p[2] < RowTop(Dsg.sub + Dsg.rib) THEN 1
              ELSE IF Dsg.sub <= 0 THEN 3 ELSE 0              \* 0 = background untouched, 3 = substrate, 1 = waveguide, 2 = block
RECURSIVE Paint(_, _, _)
Paint(p, k, v) == IF k > Len(Placed) THEN v ELSE Paint(p, k + 1, IF p \in CellsOf(Placed[k]) THEN Placed[k].mat ELSE v)
DesignEps == [i \in 1..(P.g.shape[1] * P.g.shape[2]) |->
                LET p == <<(i - 1) \div P.g.shape[2], (i - 1) % P.g.shape[2], 0>> IN Paint(p, 1, BaseEps(p))]
DesignTies == \E k \in 1..Len(Placed) : \E a \in 1..2 : Tie(Ctr(Placed[k], a), P.g.sp[a]) \/ Tie(Placed[k].size[a], P.g.sp[a]) \/ Round(Placed[k].size[a], P.g.sp[a]) = 0

Init == /\ pi \in 1..Len(Plan) /\ hist = << >>
        /\ box = IF Plan[pi].kind = "boxes" THEN Plan[pi].boxes ELSE << >>
        /\ out = << >>
Step(i) == /\ P.kind = "boxes" /\ Len(hist) < P.depth
           /\ (P.ops[i].op = "copy" => Len(box) < 4)
           /\ box' = Apply(box, P.ops[i]) /\ hist' = Append(hist, i) /\ UNCHANGED <<pi, out>>
Design == /\ P.kind = "design" /\ out = << >>
          /\ out' = DesignEps /\ UNCHANGED <<pi, box, hist>>
Next == Design \/ (P.kind = "boxes" /\ \E i \in 1..Len(P.ops) : Step(i))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* a placement moves one box only, and never changes size or material
MovesOne == [][P.kind = "boxes" => \A b \in 1..Len(box) :
                 /\ box'[b].size = box[b].size /\ box'[b].mat = box[b].mat
                 /\ (box'[b] # box[b] => (P.ops[hist'[Len(hist')]].b = b))]_vars
\* alignment postconditions
Post == [][P.kind = "boxes" /\ Len(hist') > Len(hist) => LET o == P.ops[hist'[Len(hist')]] IN
            /\ o.op = "align" /\ o.c # o.b => CtrOf(box'[o.b]) = CtrOf(box[o.c])
            /\ o.op = "halign" /\ o.c # o.b => /\ box'[o.b].min[2] = box[o.b].min[2]
                                /\ (o.opp => (IF o.low THEN box'[o.b].min[1] = Mx(box[o.c], 1) ELSE Mx(box'[o.b], 1) = box[o.c].min[1]))
                                /\ (~o.opp => (IF o.low THEN box'[o.b].min[1] = box[o.c].min[1] ELSE Mx(box'[o.b], 1) = Mx(box[o.c], 1)))
            /\ o.op = "valign" /\ o.c # o.b => /\ box'[o.b].min[1] = box[o.b].min[1]
                                /\ (o.opp => (IF o.low THEN box'[o.b].min[2] = Mx(box[o.c], 2) ELSE Mx(box'[o.b], 2) = box[o.c].min[2]))
                                /\ (~o.opp => (IF o.low THEN box'[o.b].min[2] = box[o.c].min[2] ELSE Mx(box'[o.b], 2) = Mx(box[o.c], 2)))]_vars
\* a design with equal separations is symmetric and leaves the requested gap
DesignGeometry == P.kind = "design" =>
   /\ (Dsg.gap > 0 => WR.min[1] - Mx(WL, 1) = Dsg.gap)
   /\ Ctr(WL, 1) + Ctr(WR, 1) = 2 * Ctr(Wg0, 1)
   /\ (Dsg.hasblk /\ ~Dsg.vertical => WL.min[1] - Mx(BL, 1) = Dsg.sep[1] /\ BR.min[1] - Mx(WR, 1) = Dsg.sep[2] /\ BL.min[2] = WL.min[2])
   /\ (Dsg.hasblk /\ Dsg.vertical => BL.min[2] - Mx(WL, 2) = Dsg.sep[1] /\ BR.min[2] - Mx(WR, 2) = Dsg.sep[2] /\ Ctr(BL, 1) = Ctr(WL, 1))
Pix(b) == [lo |-> [a \in 1..2 |-> b.min[a] \div P.pix], hi |-> [a \in 1..2 |-> Mx(b, a) \div P.pix]]
Emit == IF P.kind = "design" THEN (out = << >> \/ PrintT("@@" \o ToJson([pi |-> pi, eps |-> out, tie |-> DesignTies])))
        ELSE PrintT("@@" \o ToJson([pi |-> pi, hist |-> hist, box |-> box, pix |-> [b \in 1..Len(box) |-> Pix(box[b])]]))
=============================================================================
