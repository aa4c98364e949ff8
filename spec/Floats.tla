------------------------------- MODULE Floats -------------------------------
(* IEEE single precision as bit patterns (signed 32-bit words) and as dyadic
   rationals <<m, e>> = m * 2^e in canonical form (m odd, or <<0,0>>).        *)
EXTENDS Words
MINW == -2147483647 - 1
MagF(b) == IF b >= 0 THEN b ELSE (b + 2147483647) + 1
IsNaN(b) == MagF(b) > 2139095040
IsInf(b) == MagF(b) = 2139095040
RECURSIVE Canon(_, _)
Canon(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 2 = 0 THEN Canon(m \div 2, e + 1) ELSE <<m, e>>
Dy(b) ==            \* finite floats
  LET a == MagF(b)  E == a \div 8388608  M == a % 8388608
      v == IF E = 0 THEN <<M, -149>> ELSE <<M + 8388608, E - 150>>
      s == IF b < 0 THEN -1 ELSE 1
  IN Canon(s * v[1], v[2])
\* total order of finite floats through an integer key
FKey(b) == IF b >= 0 THEN b ELSE -(MagF(b))
\* nearest 32-bit float bit pattern of m * 2^e, |m| < 2^24, normal range
RECURSIVE NormUp(_, _)
NormUp(m, e) == IF m >= 8388608 THEN <<m, e>> ELSE NormUp(2 * m, e - 1)
FBits(m, e) ==
  IF m = 0 THEN 0
  ELSE LET n == NormUp(Abs(m), e)
           b == (n[2] + 150) * 8388608 + (n[1] - 8388608)
       IN IF m < 0 THEN (b - 2147483647) - 1 ELSE b
=============================================================================
