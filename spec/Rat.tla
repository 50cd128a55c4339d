-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<n, d>>, d > 0, in lowest terms, with |n|, d <= QMax so  *)
(* that TLC's 32-bit integers never overflow.  Bad absorbs everything that   *)
(* leaves the range (the generator then takes another step); Unk is a value  *)
(* that exists but is not rational (sin(1), ...).                            *)
EXTENDS Integers, Sequences
QMax == 20000
Bad == <<1, 0>>
Unk == <<0, 0>>
Q(n) == <<n, 1>>
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == \* d # 0
  LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1
      nn == s * (n \div g)  dd == Abs(d) \div g
  IN IF n = 0 THEN <<0, 1>> ELSE IF Abs(n) \div g > QMax \/ dd > QMax THEN Bad ELSE <<s * (IF n < 0 THEN -(Abs(n) \div g) ELSE n \div g), dd>>
Known(a) == a[2] # 0
QAdd(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE IF a = Unk \/ b = Unk THEN Unk
              ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
QNeg(a) == IF Known(a) THEN <<-a[1], a[2]>> ELSE a
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == IF a = Bad \/ b = Bad THEN Bad
              ELSE IF a = Q(0) \/ b = Q(0) THEN Q(0)
              ELSE IF a = Unk \/ b = Unk THEN Unk
              ELSE Norm(a[1] * b[1], a[2] * b[2])
QInv(a) == IF ~Known(a) THEN a ELSE IF a[1] = 0 THEN Bad ELSE Norm(a[2], a[1])
QDiv(a, b) == QMul(a, QInv(b))
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
QEq(a, b) == a = b
RECURSIVE QPow(_, _)
QPow(a, k) == IF k = 0 THEN Q(1) ELSE IF k < 0 THEN QInv(QPow(a, -k)) ELSE QMul(a, QPow(a, k - 1))
\* dyadic and small: the double computed by the code is exactly this value
RECURSIVE Pow2(_)
Pow2(d) == d = 1 \/ (d % 2 = 0 /\ Pow2(d \div 2))
Dyadic(a) == Known(a) /\ Pow2(a[2])
=============================================================================
