-------------------------------- MODULE Yee --------------------------------
(* Discrete electromagnetics on a Yee grid, exactly.                          *)
(* A grid is a record with                                                    *)
(*   n    <<n1, n2, n3>>  pixels per axis                                     *)
(*   w    <<w1, w2, w3>>  reciprocal pixel sizes                              *)
(*   b    <<b1, b2, b3>>  Bloch factors picked up when wrapping around        *)
(* A scalar field is the sequence of its values in row-major order; a vector  *)
(* field is a sequence of three scalar fields.                                *)
EXTENDS GRat, TLC
Size(g) == g.n[1] * g.n[2] * g.n[3]
Stride(g, a) == CASE a = 1 -> g.n[2] * g.n[3] [] a = 2 -> g.n[3] [] a = 3 -> 1
Coord(g, a, i) == ((i - 1) \div Stride(g, a)) % g.n[a]
NextI(g, a, i) == IF Coord(g, a, i) = g.n[a] - 1 THEN i - (g.n[a] - 1) * Stride(g, a) ELSE i + Stride(g, a)
PrevI(g, a, i) == IF Coord(g, a, i) = 0 THEN i + (g.n[a] - 1) * Stride(g, a) ELSE i - Stride(g, a)
ZeroF(g) == [i \in 1..Size(g) |-> Q0]
\* forward (edges to faces) and backward (faces to edges) differences
DF(g, a, f) == IF g.n[a] = 1 THEN ZeroF(g) ELSE LET h == TLCEval(f) IN TLCEval(
  [i \in 1..Size(g) |-> QMul(g.w[a], QSub(QMul(IF Coord(g, a, i) = g.n[a] - 1 THEN g.b[a] ELSE Q1, h[NextI(g, a, i)]), h[i]))])
DB(g, a, f) == IF g.n[a] = 1 THEN ZeroF(g) ELSE LET h == TLCEval(f) IN TLCEval(
  [i \in 1..Size(g) |-> QMul(g.w[a], QSub(h[i], QMul(IF Coord(g, a, i) = 0 THEN QConj(g.b[a]) ELSE Q1, h[PrevI(g, a, i)])))])
FAdd(f, h) == TLCEval([i \in 1..Len(f) |-> QAdd(f[i], h[i])])
FSub(f, h) == TLCEval([i \in 1..Len(f) |-> QSub(f[i], h[i])])
FMul(f, h) == TLCEval([i \in 1..Len(f) |-> QMul(f[i], h[i])])
FDiv(f, h) == TLCEval([i \in 1..Len(f) |-> QDiv(f[i], h[i])])
FScale(c, f) == TLCEval([i \in 1..Len(f) |-> QMul(c, f[i])])
VAdd(u, v) == <<FAdd(u[1], v[1]), FAdd(u[2], v[2]), FAdd(u[3], v[3])>>
VSub(u, v) == <<FSub(u[1], v[1]), FSub(u[2], v[2]), FSub(u[3], v[3])>>
VMul(u, v) == <<FMul(u[1], v[1]), FMul(u[2], v[2]), FMul(u[3], v[3])>>
VDiv(u, v) == <<FDiv(u[1], v[1]), FDiv(u[2], v[2]), FDiv(u[3], v[3])>>
VScale(c, v) == <<FScale(c, v[1]), FScale(c, v[2]), FScale(c, v[3])>>
VZero(g) == <<ZeroF(g), ZeroF(g), ZeroF(g)>>
\* curls of electric (forward) and magnetic (backward) fields
CurlE(g, f) == <<FSub(DF(g, 2, f[3]), DF(g, 3, f[2])), FSub(DF(g, 3, f[1]), DF(g, 1, f[3])), FSub(DF(g, 1, f[2]), DF(g, 2, f[1]))>>
CurlH(g, f) == <<FSub(DB(g, 2, f[3]), DB(g, 3, f[2])), FSub(DB(g, 3, f[1]), DB(g, 1, f[3])), FSub(DB(g, 1, f[2]), DB(g, 2, f[1]))>>
\* curls of fields varying as exp(-i beta z)
MIB(beta) == QNeg(QMulI(beta))
CurlEB(g, beta, f) == <<FSub(DF(g, 2, f[3]), FScale(MIB(beta), f[2])), FSub(FScale(MIB(beta), f[1]), DF(g, 1, f[3])), FSub(DF(g, 1, f[2]), DF(g, 2, f[1]))>>
CurlHB(g, beta, f) == <<FSub(DB(g, 2, f[3]), FScale(MIB(beta), f[2])), FSub(FScale(MIB(beta), f[1]), DB(g, 1, f[3])), FSub(DB(g, 1, f[2]), DB(g, 2, f[1]))>>
GradF(g, p) == <<DF(g, 1, p), DF(g, 2, p), DF(g, 3, p)>>
GradB(g, p) == <<DB(g, 1, p), DB(g, 2, p), DB(g, 3, p)>>
DivF(g, f) == FAdd(FAdd(DF(g, 1, f[1]), DF(g, 2, f[2])), DF(g, 3, f[3]))
DivB(g, f) == FAdd(FAdd(DB(g, 1, f[1]), DB(g, 2, f[2])), DB(g, 3, f[3]))
\* permittivity at the positions of the three electric field components
QHalf == <<1, 0, 2>>
AvgPrev(g, a, p) == TLCEval([i \in 1..Size(g) |-> QMul(QHalf, QAdd(p[i], p[PrevI(g, a, i)]))])
EpsT(g, p) == LET px == AvgPrev(g, 2, p)
                  py == AvgPrev(g, 1, p)
              IN <<px, py, AvgPrev(g, 2, py)>>
\* frequency-domain operators
Maxwell(g, k0, et, e) == VSub(CurlH(g, CurlE(g, e)), VScale(QMul(k0, k0), VMul(et, e)))
OpEz(g, k0, et, f) == FSub(FScale(QInt(-1), FAdd(DB(g, 1, DF(g, 1, f)), DB(g, 2, DF(g, 2, f)))), FScale(QMul(k0, k0), FMul(et[3], f)))
OpHz(g, k0, et, f) == FSub(FScale(QInt(-1), FAdd(DF(g, 1, FDiv(DB(g, 1, f), et[2])), DF(g, 2, FDiv(DB(g, 2, f), et[1])))), FScale(QMul(k0, k0), f))
\* the same with the two differences exchanged
OpHzX(g, k0, et, f) == FSub(FScale(QInt(-1), FAdd(DB(g, 1, FDiv(DF(g, 1, f), et[2])), DB(g, 2, FDiv(DF(g, 2, f), et[1])))), FScale(QMul(k0, k0), f))
\* operators of guided modes: of one transverse field on a line, of (hx, hy) on a plane (magnetic fields varying as exp(-i beta z))
OpMode1(g, k0, p, f) == FAdd(FScale(QMul(k0, k0), FMul(p, f)), DF(g, 1, DB(g, 1, f)))
OpMode2(g, k0, et, hx, hy) ==
  LET cz == FDiv(FSub(DB(g, 1, hy), DB(g, 2, hx)), et[3])
      dv == FAdd(DF(g, 1, hx), DF(g, 2, hy))
      k2 == QMul(k0, k0)
  IN <<FAdd(FSub(FScale(k2, FMul(et[2], hx)), FMul(et[2], DF(g, 2, cz))), DB(g, 1, dv)),
       FAdd(FAdd(FScale(k2, FMul(et[1], hy)), FMul(et[1], DF(g, 1, cz))), DB(g, 2, dv))>>
VInner(u, v) == QAdd(QAdd(QInner(u[1], v[1]), QInner(u[2], v[2])), QInner(u[3], v[3]))
=============================================================================
