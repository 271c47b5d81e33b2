------------------------------ MODULE Optics ------------------------------
(* The physical response of one coupler (Mach-Zehnder node) and of a column   *)
(* of couplers, as pure operators on rows of fields.                          *)
(* A field block is a sequence over rails of sequences over inputs.           *)
(* A node is a record:                                                        *)
(*   id, top, bottom (rails, 1-based), col (0-based)                          *)
(*   cl, sl, cr, sr : cosine / sine of the left / right splitter angle        *)
(*   ht, hp         : half phases exp(i theta/2), exp(i phi/2)                *)
(*   et, ep         : phases exp(i theta), exp(i phi)                         *)
(*   at, ap         : amplitude transmission of the theta / phi shifter       *)
EXTENDS Ring, Sequences, FiniteSets, TLC

ScaleRow(r, x) == IF x = One THEN r ELSE [k \in 1..Len(r) |-> Mul(r[k], x)]

(* the pair of factors a phase layer applies to (top, bottom)                 *)
ThetaFactors(style, nd) ==
  CASE style = "top"    -> <<Mul(nd.et, nd.at), One>>
    [] style = "bottom" -> <<One, Mul(nd.et, nd.at)>>
    [] OTHER            -> <<Mul(nd.ht, nd.at), Conj(nd.ht)>>
PhiFactors(style, nd) ==
  CASE style = "top"          -> <<Mul(nd.ep, nd.ap), One>>
    [] style = "bottom"       -> <<One, Mul(nd.ep, nd.ap)>>
    [] style = "differential" -> <<Mul(Conj(nd.hp), nd.ap), Mul(nd.hp, nd.ap)>>
    [] OTHER                  -> <<Mul(nd.ep, nd.ap), Mul(nd.ep, nd.ap)>>

(* splitter: top' = c top + i s bottom ; bottom' = i s top + c bottom          *)
SplitTop(c, s, t, b) == [k \in 1..Len(t) |-> Add(Mul(c, t[k]), MulI(Mul(s, b[k])))]
SplitBot(c, s, t, b) == [k \in 1..Len(t) |-> Add(MulI(Mul(s, t[k])), Mul(c, b[k]))]

(* layer kinds of one column, in forward order                               *)
Layers == <<"phi", "left", "theta", "right">>

NodeOn(nodes, r) == IF \E i \in 1..Len(nodes) : nodes[i].top = r \/ nodes[i].bottom = r
                    THEN CHOOSE i \in 1..Len(nodes) : nodes[i].top = r \/ nodes[i].bottom = r
                    ELSE 0

RailOut(style, layer, nd, r, f) ==
  LET isTop == nd.top = r
      t == f[nd.top]  b == f[nd.bottom]
  IN CASE layer = "phi"   -> ScaleRow(f[r], PhiFactors(style, nd)[IF isTop THEN 1 ELSE 2])
       [] layer = "theta" -> ScaleRow(f[r], ThetaFactors(style, nd)[IF isTop THEN 1 ELSE 2])
       [] layer = "left"  -> IF isTop THEN SplitTop(nd.cl, nd.sl, t, b) ELSE SplitBot(nd.cl, nd.sl, t, b)
       [] layer = "right" -> IF isTop THEN SplitTop(nd.cr, nd.sr, t, b) ELSE SplitBot(nd.cr, nd.sr, t, b)

ApplyLayer(style, layer, nodes, f) ==
  [r \in 1..Len(f) |-> LET i == NodeOn(nodes, r)
                       IN IF i = 0 THEN f[r] ELSE RailOut(style, layer, nodes[i], r, f)]

ApplyScreen(gam, f) == [r \in 1..Len(f) |-> ScaleRow(f[r], gam[r])]

Lossless(nd) == nd.at = One /\ nd.ap = One
ColPower(f, k) == LET g(r) == Abs2(f[r][k]) IN SumTo(g, Len(f))
Ident(n) == [r \in 1..n |-> [k \in 1..n |-> IF r = k THEN One ELSE Zero]]
Transpose(m) == [r \in 1..Len(m[1]) |-> [k \in 1..Len(m) |-> m[k][r]]]
===========================================================================
