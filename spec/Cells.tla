------------------------------ MODULE Cells ------------------------------
(* Which grid cells a box covers.  Positions and sizes are integers in a      *)
(* common length unit; sp[a] is the pixel size of axis a in that unit.        *)
EXTENDS Integers, Sequences, FiniteSets
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
\* nearest integer (callers avoid ties)
Round(v, s) == (2 * v + s) \div (2 * s)
Tie(v, s) == (2 * v + s) % (2 * s) = 0
\* pixel of a centre: the nearest one, where the middle of a pixel belongs to that pixel
Centre(v, s) == (2 * v + s - 1) \div (2 * s)
\* known deviation: the middle of a pixel goes to the nearest even one
CentreEven(v, s) == LET k == Round(v, s) IN IF Tie(v, s) /\ k % 2 # 0 THEN k - 1 ELSE k
\* no exact answer: half a pixel too much, or an even number of pixels around the middle of a pixel
BadTie(c, z, s) == Tie(z, s) \/ (Tie(c, s) /\ Round(z, s) > 0 /\ Round(z, s) % 2 = 0)
\* pixels (0-based) covered on one axis; axes beyond ndim have a single pixel
AxisCells(c, z, s, n, real, Ctre(_, _)) ==
  IF ~real THEN {0}
  ELSE LET k == Round(z, s)
           o == Ctre(c, s)
       IN IF k = 0 THEN {o} \cap (0..(n - 1))
          ELSE {i \in 0..(n - 1) : i >= o - k \div 2 /\ i < o - k \div 2 + k}
CellsBy(g, c, z, Ctre(_, _)) ==
  {<<i, j, k>> \in (0..(g.shape[1] - 1)) \X (0..(g.shape[2] - 1)) \X (0..(g.shape[3] - 1)) :
     /\ i \in AxisCells(c[1], z[1], g.sp[1], g.shape[1], g.ndim >= 1, Ctre)
     /\ j \in AxisCells(c[2], z[2], g.sp[2], g.shape[2], g.ndim >= 2, Ctre)
     /\ k \in AxisCells(c[3], z[3], g.sp[3], g.shape[3], g.ndim >= 3, Ctre)}
Cells(g, c, z) == CellsBy(g, c, z, Centre)
\* a box of whole pixels at whole pixels covers exactly these pixels
AlignedCells(g, c, z) ==
  (\A a \in 1..g.ndim : z[a] > 0 /\ z[a] % g.sp[a] = 0 /\ (2 * c[a] - z[a]) % (2 * g.sp[a]) = 0) =>
    Cells(g, c, z) = {p \in (0..(g.shape[1] - 1)) \X (0..(g.shape[2] - 1)) \X (0..(g.shape[3] - 1)) :
                        \A a \in 1..g.ndim : 2 * p[a] * g.sp[a] >= 2 * c[a] - z[a] /\ 2 * (p[a] + 1) * g.sp[a] <= 2 * c[a] + z[a]}
AllCells(g) == (0..(g.shape[1] - 1)) \X (0..(g.shape[2] - 1)) \X (0..(g.shape[3] - 1))
\* fill: all cells whose last axis is below the height (whole pixels); everything for a non-positive height
FillCells(g, h) == IF h <= 0 THEN AllCells(g)
                   ELSE {p \in AllCells(g) : p[g.ndim] < h \div g.sp[g.ndim]}
\* a patterned component: an xy mask (set of pixel pairs) extruded from zmin to zmin + t
AddCells(g, mask, zmin, t) ==
  {p \in AllCells(g) : <<p[1], p[2]>> \in mask
     /\ (g.ndim = 3 => p[3] >= zmin \div g.sp[3] /\ p[3] < (zmin + t) \div g.sp[3])}
=============================================================================
