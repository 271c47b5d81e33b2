------------------------------- MODULE Ring -------------------------------
(* Exact complex arithmetic in Z[w, 1/2, 1/5], w = exp(i pi/4) (w^4 = -1).    *)
(* An element is <<a, b, c, d, k2, k5>>, denoting                            *)
(*     (a + b w + c w^2 + d w^3) / (2^k2 * 5^k5).                            *)
(* It contains every quantity of the optical model below that matters:       *)
(* 1/sqrt2 = (w - w^3)/2 (ideal splitters), all phases multiple of pi/4,      *)
(* Pythagorean phases and splitters ((3+4i)/5, ...), amplitudes 1/2, 4/5.     *)
(* Elements are kept in normal form, so equality of values is equality of     *)
(* tuples and invariants are decided exactly, with no rounding.               *)
EXTENDS Integers, Sequences

RECURSIVE RPow(_, _)
RPow(b, e) == IF e = 0 THEN 1 ELSE b * RPow(b, e - 1)

RECURSIVE Red2(_, _, _, _, _, _)
Red2(a, b, c, d, k2, k5) ==
  IF k2 > 0 /\ a % 2 = 0 /\ b % 2 = 0 /\ c % 2 = 0 /\ d % 2 = 0
  THEN Red2(a \div 2, b \div 2, c \div 2, d \div 2, k2 - 1, k5)
  ELSE <<a, b, c, d, k2, k5>>
RECURSIVE Red5(_, _, _, _, _, _)
Red5(a, b, c, d, k2, k5) ==
  IF k5 > 0 /\ a % 5 = 0 /\ b % 5 = 0 /\ c % 5 = 0 /\ d % 5 = 0
  THEN Red5(a \div 5, b \div 5, c \div 5, d \div 5, k2, k5 - 1)
  ELSE Red2(a, b, c, d, k2, k5)
Norm(a, b, c, d, k2, k5) ==
  IF a = 0 /\ b = 0 /\ c = 0 /\ d = 0 THEN <<0, 0, 0, 0, 0, 0>>
  ELSE Red5(a, b, c, d, k2, k5)

Zero == <<0, 0, 0, 0, 0, 0>>
One  == <<1, 0, 0, 0, 0, 0>>
Im   == <<0, 0, 1, 0, 0, 0>>            \* the imaginary unit
Half == <<1, 0, 0, 0, 1, 0>>
RInt(n) == <<n, 0, 0, 0, 0, 0>>
Gauss(re, im) == <<re, 0, im, 0, 0, 0>>
Omega(j) == LET m == j % 8 IN
  CASE m = 0 -> <<1,0,0,0,0,0>> [] m = 1 -> <<0,1,0,0,0,0>> [] m = 2 -> <<0,0,1,0,0,0>>
    [] m = 3 -> <<0,0,0,1,0,0>> [] m = 4 -> <<-1,0,0,0,0,0>> [] m = 5 -> <<0,-1,0,0,0,0>>
    [] m = 6 -> <<0,0,-1,0,0,0>> [] m = 7 -> <<0,0,0,-1,0,0>>

Mul(x, y) ==
  IF x = One THEN y ELSE IF y = One THEN x ELSE IF x = Zero \/ y = Zero THEN Zero ELSE
  Norm(x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
       x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
       x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
       x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1],
       x[5] + y[5], x[6] + y[6])

Add(x, y) ==
  IF x = Zero THEN y ELSE IF y = Zero THEN x ELSE
  LET k2 == IF x[5] > y[5] THEN x[5] ELSE y[5]
      k5 == IF x[6] > y[6] THEN x[6] ELSE y[6]
      fx == RPow(2, k2 - x[5]) * RPow(5, k5 - x[6])
      fy == RPow(2, k2 - y[5]) * RPow(5, k5 - y[6])
  IN Norm(x[1]*fx + y[1]*fy, x[2]*fx + y[2]*fy, x[3]*fx + y[3]*fy, x[4]*fx + y[4]*fy, k2, k5)

Neg(x) == <<-x[1], -x[2], -x[3], -x[4], x[5], x[6]>>
Sub(x, y) == Add(x, Neg(y))
Conj(x) == <<x[1], -x[4], -x[3], -x[2], x[5], x[6]>>
Abs2(x) == Mul(x, Conj(x))
IsReal(x) == x = Conj(x)
MulI(x) == <<-x[3], -x[4], x[1], x[2], x[5], x[6]>>      \* i * x

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN Zero ELSE Add(SumTo(f, n - 1), f(n))
SumSeq(s) == LET g(i) == s[i] IN SumTo(g, Len(s))
Dot(u, v) == LET g(i) == Mul(u[i], v[i]) IN SumTo(g, Len(u))
Power(v) == LET g(i) == Abs2(v[i]) IN SumTo(g, Len(v))
===========================================================================
