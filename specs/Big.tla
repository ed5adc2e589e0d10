-------------------------------- MODULE Big --------------------------------
(* Naturals up to 2^96 as sequences of 8 digits in base 4096 (least           *)
(* significant first): energies in fW(s) exceed the integers of TLC by far.    *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL B == 4096
LOCAL N == 8
BZero == <<0, 0, 0, 0, 0, 0, 0, 0>>
BInt(n) == <<n % B, (n \div B) % B, n \div (B * B), 0, 0, 0, 0, 0>>
LOCAL Norm(d) ==      \* carries; what exceeds the last digit stays in it
  LET c1 == d[1] \div B        x2 == d[2] + c1
      c2 == x2 \div B          x3 == d[3] + c2
      c3 == x3 \div B          x4 == d[4] + c3
      c4 == x4 \div B          x5 == d[5] + c4
      c5 == x5 \div B          x6 == d[6] + c5
      c6 == x6 \div B          x7 == d[7] + c6
      c7 == x7 \div B
  IN  <<d[1] % B, x2 % B, x3 % B, x4 % B, x5 % B, x6 % B, x7 % B, d[8] + c7>>
BAdd(a, b) == Norm(<<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6], a[7] + b[7], a[8] + b[8]>>)
\* a >= b required
BSub(a, b) == Norm(<<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7], a[8] - b[8]>>)
BMul(a, b) ==
  Norm(<<a[1] * b[1],
         a[1] * b[2] + a[2] * b[1],
         a[1] * b[3] + a[2] * b[2] + a[3] * b[1],
         a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1],
         a[1] * b[5] + a[2] * b[4] + a[3] * b[3] + a[4] * b[2] + a[5] * b[1],
         a[1] * b[6] + a[2] * b[5] + a[3] * b[4] + a[4] * b[3] + a[5] * b[2] + a[6] * b[1],
         a[1] * b[7] + a[2] * b[6] + a[3] * b[5] + a[4] * b[4] + a[5] * b[3] + a[6] * b[2] + a[7] * b[1],
         a[1] * b[8] + a[2] * b[7] + a[3] * b[6] + a[4] * b[5] + a[5] * b[4] + a[6] * b[3] + a[7] * b[2] + a[8] * b[1]>>)
RECURSIVE LeFrom(_, _, _)
LOCAL LeFrom(a, b, k) == IF k = 0 THEN TRUE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LeFrom(a, b, k - 1)
BLe(a, b) == LeFrom(a, b, N)
BLt(a, b) == ~BLe(b, a)
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
\* |a - b| <= t
BNear(a, b, t) == BLe(a, BAdd(b, t)) /\ BLe(b, BAdd(a, t))
\* floor(a / 2^22) as integer, saturated at 2^30
BShr22(a) ==      \* 2^22 = 4096 * 1024
  IF BLe(<<0, 0, 0, 0, 16, 0, 0, 0>>, a) THEN 1073741824
  ELSE a[2] \div 1024 + a[3] * 4 + a[4] * 16384 + a[5] * 67108864
=============================================================================
