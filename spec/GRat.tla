------------------------------- MODULE GRat -------------------------------
(* Exact Gaussian rationals: <<p, q, d>> denotes (p + q i) / d, d > 0, in     *)
(* lowest terms, so that equality of values is equality of tuples.            *)
EXTENDS Integers, Sequences
AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
QNorm(p, q, d) ==
  IF d = 1 THEN <<p, q, 1>>
  ELSE LET g == Gcd(Gcd(AbsI(p), AbsI(q)), d)
       IN IF g = 1 THEN <<p, q, d>> ELSE <<p \div g, q \div g, d \div g>>
Q0 == <<0, 0, 1>>
Q1 == <<1, 0, 1>>
QI == <<0, 1, 1>>
QInt(n) == <<n, 0, 1>>
QNeg(x) == <<-x[1], -x[2], x[3]>>
QConj(x) == <<x[1], -x[2], x[3]>>
QMulI(x) == <<-x[2], x[1], x[3]>>
QAdd(x, y) ==
  IF x = Q0 THEN y ELSE IF y = Q0 THEN x
  ELSE IF x[3] = y[3] THEN QNorm(x[1] + y[1], x[2] + y[2], x[3])
  ELSE LET g == Gcd(x[3], y[3])
           a == y[3] \div g
           b == x[3] \div g
       IN QNorm(x[1] * a + y[1] * b, x[2] * a + y[2] * b, x[3] * a)
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) ==
  IF x = Q1 THEN y ELSE IF y = Q1 THEN x ELSE IF x = Q0 \/ y = Q0 THEN Q0
  ELSE IF x[3] = 1 /\ y[3] = 1 THEN <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1], 1>>
  ELSE \* common factors are cancelled first, so that intermediate numbers stay small
       LET g == Gcd(Gcd(AbsI(x[1]), AbsI(x[2])), y[3])
           h == Gcd(Gcd(AbsI(y[1]), AbsI(y[2])), x[3])
           a == x[1] \div g
           b == x[2] \div g
           c == y[1] \div h
           d == y[2] \div h
       IN QNorm(a * c - b * d, a * d + b * c, (x[3] \div h) * (y[3] \div g))
QInv(x) ==
  IF x[2] = 0 THEN IF x[1] > 0 THEN <<x[3], 0, x[1]>> ELSE <<-x[3], 0, -x[1]>>
  ELSE IF x[1] = 0 THEN IF x[2] > 0 THEN <<0, -x[3], x[2]>> ELSE <<0, x[3], -x[2]>>
  ELSE LET g == Gcd(AbsI(x[1]), AbsI(x[2]))
           a == x[1] \div g
           b == x[2] \div g
       IN QNorm(a * x[3], -b * x[3], (a * a + b * b) * g)
QDiv(x, y) == QMul(x, QInv(y))
QRe(x) == QNorm(x[1], 0, x[3])
QAbs2(x) == QMul(x, QConj(x))
RECURSIVE QSumTo(_, _)
QSumTo(f(_), n) == IF n = 0 THEN Q0 ELSE QAdd(QSumTo(f, n - 1), f(n))
QDot(u, v) == LET g(i) == QMul(u[i], v[i]) IN QSumTo(g, Len(u))          \* bilinear
QInner(u, v) == LET g(i) == QMul(QConj(u[i]), v[i]) IN QSumTo(g, Len(u)) \* sesquilinear
===========================================================================
