-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic: a number is <<n, d>> in lowest terms with d > 0.  *)
(* Observations that are not (recognisable) rationals are encoded <<code, 0>>,  *)
(* which is a value different from every rational.                              *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Norm(n, d) == IF n = 0 THEN <<0, 1>>
              ELSE LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
                   IN <<s * (n \div g), s * (d \div g)>>
R(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
IsRat(a) == a[2] > 0
RAdd(a, b) == IF a[2] = b[2] THEN Norm(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero
              ELSE LET g1 == Gcd(Abs(a[1]), b[2]) g2 == Gcd(Abs(b[1]), a[2])
                   IN <<(a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RECURSIVE RLt(_, _)                            \* by continued fractions: no overflow
RLt(a, b) == LET fa == a[1] \div a[2] fb == b[1] \div b[2] IN
             IF fa # fb THEN fa < fb
             ELSE LET ra == a[1] % a[2] rb == b[1] % b[2] IN
                  IF rb = 0 THEN FALSE ELSE IF ra = 0 THEN TRUE
                  ELSE RLt(<<b[2], rb>>, <<a[2], ra>>)
RLe(a, b) == a = b \/ RLt(a, b)
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RAbs(a) == <<Abs(a[1]), a[2]>>
RFloor(a) == a[1] \div a[2]                    \* TLA+ integer division rounds down
RCeil(a) == -((-a[1]) \div a[2])
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN Zero
              ELSE IF Len(s) = 1 THEN s[1]
              ELSE LET h == Len(s) \div 2 IN RAdd(RSumSeq(SubSeq(s, 1, h)), RSumSeq(SubSeq(s, h + 1, Len(s))))
RECURSIVE RMinSeq(_)
RMinSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], RMinSeq(Tail(s)))
RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], RMaxSeq(Tail(s)))
=============================================================================
