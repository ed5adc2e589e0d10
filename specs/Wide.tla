-------------------------------- MODULE Wide --------------------------------
(* Products that exceed the integers of TLC, as triple in base 4096 (highest   *)
(* digit unbounded and signed, others 0 .. 4095): order is lexicographic.      *)
EXTENDS Integers
LOCAL B == 4096
LOCAL H(x) == x \div B     \* floors, also for negative x
LOCAL L(x) == x % B
Mul(x, y) ==
  LET lo == L(x) * L(y)
      mid == H(x) * L(y) + L(x) * H(y) + lo \div B
  IN  <<H(x) * H(y) + mid \div B, mid % B, lo % B>>
WZero == <<0, 0, 0>>
WLt(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
WLe(a, b) == a = b \/ WLt(a, b)
WAdd(a, b) == LET lo == a[3] + b[3]  mid == a[2] + b[2] + lo \div B IN <<a[1] + b[1] + mid \div B, mid % B, lo % B>>
=============================================================================
