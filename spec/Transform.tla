------------------------------ MODULE Transform ------------------------------
(* Design transforms, exactly: reflections symmetries (averaged or copied from *)
(* the first half), masks of boxes, and the disk average of the smoothing      *)
(* filter.  Designs hold integers; averages of at most four reflections are    *)
(* exact after scaling the design by 16.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Plan == JsonDeserialize(IOEnv.PLAN)
VARIABLES pi, flags, out
vars == <<pi, flags, out>>
P == Plan[pi]
\* a design: [r |-> rows, c |-> columns, v |-> values in row-major order]
At(d, i, j) == d.v[(i - 1) * d.c + j]
Make(r, c, f(_, _)) == [r |-> r, c |-> c, v |-> TLCEval([k \in 1..(r * c) |-> f(((k - 1) \div c) + 1, ((k - 1) % c) + 1)])]
FlipX(d) == LET f(i, j) == At(d, d.r + 1 - i, j) IN Make(d.r, d.c, f)
FlipY(d) == LET f(i, j) == At(d, i, d.c + 1 - j) IN Make(d.r, d.c, f)
Transp(d) == LET f(i, j) == At(d, j, i) IN Make(d.c, d.r, f)
AntiT(d) == LET f(i, j) == At(d, d.c + 1 - j, d.r + 1 - i) IN Make(d.c, d.r, f)
Avg(d, e) == LET f(i, j) == (At(d, i, j) + At(e, i, j)) \div 2 IN Make(d.r, d.c, f)
\* the first half, reflected onto the second
CopyX(d) == LET f(i, j) == At(d, IF 2 * i > d.r + 1 THEN d.r + 1 - i ELSE i, j) IN Make(d.r, d.c, f)
CopyY(d) == LET f(i, j) == At(d, i, IF 2 * j > d.c + 1 THEN d.c + 1 - j ELSE j) IN Make(d.r, d.c, f)
Half(fl, d) == LET y == IF fl.y THEN (IF fl.avg THEN Avg(d, FlipY(d)) ELSE CopyY(d)) ELSE d
               IN IF fl.x THEN (IF fl.avg THEN Avg(y, FlipX(y)) ELSE CopyX(y)) ELSE y
Diag(fl, d) == LET p == IF fl.p THEN Avg(d, Transp(d)) ELSE d
               IN IF fl.n THEN Avg(p, AntiT(p)) ELSE p
Sym(fl, d) == Diag(fl, Half(fl, d))
Mixed(fl) == (fl.x # fl.y) /\ (fl.p \/ fl.n)
Scaled == LET f(i, j) == 16 * At(P.d, i, j) IN Make(P.d.r, P.d.c, f)
Square == P.d.r = P.d.c
Has(fl, d) == /\ fl.x => FlipX(d) = d
              /\ fl.y => FlipY(d) = d
              /\ fl.p => Transp(d) = d
              /\ fl.n => AntiT(d) = d
\* a design with all symmetries: the average over all eight reflections and rotations
Full == LET a == Avg(Scaled, FlipX(Scaled)) b == Avg(a, FlipY(a)) IN IF Square THEN Avg(b, Transp(b)) ELSE b
\* masks
FloorDiv(a, b) == a \div b
Inside(b, i, j) == /\ FloorDiv(b.x0, b.s) <= i - 1 /\ i - 1 < FloorDiv(b.x1, b.s)
                   /\ FloorDiv(b.y0, b.s) <= j - 1 /\ j - 1 < FloorDiv(b.y1, b.s)
Covered(i, j) == \E k \in 1..Len(P.boxes) : Inside(P.boxes[k], i, j)
Masked == LET f(i, j) == IF Covered(i, j) THEN At(P.d2, i, j) ELSE At(P.d, i, j) IN Make(P.d.r, P.d.c, f)
\* smoothing: sum over the disk around every cell (zero outside the design)
Disk(rad) == {<<a, b>> \in (-rad..rad) \X (-rad..rad) : a * a + b * b < (rad + 1) * (rad + 1)}
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Smooth(rad, d) == LET f(i, j) == LET S == {o \in Disk(rad) : i + o[1] \in 1..d.r /\ j + o[2] \in 1..d.c}
                                 IN SumSet([o \in S |-> At(d, i + o[1], j + o[2])], S) IN Make(d.r, d.c, f)
Flags == [x : BOOLEAN, y : BOOLEAN, p : BOOLEAN, n : BOOLEAN, avg : BOOLEAN]
Init == pi \in 1..Len(Plan) /\ flags = << >> /\ out = << >>
DoSym == /\ P.kind = "sym" /\ flags = << >>
         /\ \E fl \in Flags : /\ (fl.p \/ fl.n) => Square
                              /\ flags' = fl /\ out' = Sym(fl, Scaled)
                              /\ PrintT("@@" \o ToJson([pi |-> pi, fl |-> fl, mixed |-> Mixed(fl), out |-> out'.v, full |-> Full.v]))
         /\ UNCHANGED pi
DoMask == /\ P.kind = "mask" /\ flags = << >> /\ flags' = [m |-> TRUE] /\ out' = Masked /\ UNCHANGED pi
          /\ PrintT("@@" \o ToJson([pi |-> pi, out |-> out'.v]))
DoSmooth == /\ P.kind = "smooth" /\ flags = << >> /\ flags' = [s |-> TRUE] /\ out' = Smooth(P.rad, P.d) /\ UNCHANGED pi
            /\ PrintT("@@" \o ToJson([pi |-> pi, out |-> out'.v, area |-> Cardinality(Disk(P.rad))]))
Next == DoSym \/ DoMask \/ DoSmooth
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Done(k) == P.kind = k /\ flags # << >>
Symmetric == (Done("sym") /\ ~Mixed(flags)) => Has(flags, out)
Idempotent == (Done("sym") /\ ~Mixed(flags)) => Sym(flags, Make(out.r, out.c, LAMBDA i, j : 16 * At(out, i, j))) = Make(out.r, out.c, LAMBDA i, j : 16 * At(out, i, j))
Fixes == Done("sym") => Sym(flags, Full) = Full
\* a copy keeps the first half (of the requested axes)
KeepsHalf == (Done("sym") /\ ~flags.avg /\ ~flags.p /\ ~flags.n) =>
               \A i \in 1..out.r, j \in 1..out.c : (flags.x => 2 * i <= out.r + 1) /\ (flags.y => 2 * j <= out.c + 1) => At(out, i, j) = At(Scaled, i, j)
\* averages keep the total
KeepsTotal == (Done("sym") /\ flags.avg) => SumSet([k \in 1..Len(out.v) |-> out.v[k]], 1..Len(out.v)) = SumSet([k \in 1..Len(out.v) |-> Scaled.v[k]], 1..Len(out.v))
MaskSplit == Done("mask") => \A i \in 1..out.r, j \in 1..out.c : At(out, i, j) = At(IF Covered(i, j) THEN P.d2 ELSE P.d, i, j)
Bounded == Done("smooth") => \A k \in 1..Len(out.v) : 0 <= out.v[k] /\ out.v[k] <= 8 * Cardinality(Disk(P.rad))
Commutes == Done("smooth") => FlipX(out) = Smooth(P.rad, FlipX(P.d)) /\ FlipY(out) = Smooth(P.rad, FlipY(P.d)) /\ Transp(out) = Smooth(P.rad, Transp(P.d))
Local == Done("smooth") => LET i0 == P.poke[1] j0 == P.poke[2]
                               e == Make(out.r, out.c, LAMBDA i, j : At(P.d, i, j) + IF i = i0 /\ j = j0 THEN 1 ELSE 0)
                               o == Smooth(P.rad, e)
                           IN \A i \in 1..out.r, j \in 1..out.c : (i - i0) * (i - i0) + (j - j0) * (j - j0) >= (P.rad + 1) * (P.rad + 1) => At(o, i, j) = At(out, i, j)
Uniform == Done("smooth") => LET o == Smooth(P.rad, Make(out.r, out.c, LAMBDA i, j : 8)) IN
             \A i \in 1..out.r, j \in 1..out.c : (i > P.rad /\ i <= out.r - P.rad /\ j > P.rad /\ j <= out.c - P.rad) => At(o, i, j) = 8 * Cardinality(Disk(P.rad))
=============================================================================
