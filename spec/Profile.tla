-------------------------------- MODULE Profile --------------------------------
(* Vertical profiles and the interpolation rules of GEMPAK in exact fixed-point
   arithmetic.  Units of a level [p, z, t, d, w, s]:
     p  12000 * log2(pressure / 1000 hPa)   (linear in log pressure)
     z  0.1 m     t, d  0.01 degC     w  0.01 degree     s  0.01
   NA is missing.                                                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NA == -2000000000
Ok(x) == x # NA
AbsP(a) == IF a < 0 THEN -a ELSE a

(* a * b / c rounded to nearest, without leaving 32 bits while |b| + |c| < 3*10^7 *)
RECURSIVE MDPos(_, _, _)
\* <<quotient, remainder>> of a * b / c for a, b >= 0, c > 0
MDPos(a, b, c) ==
  IF a = 0 THEN <<0, 0>>
  ELSE LET h == MDPos(a \div 64, b, c)
           n == h[2] * 64 + (a % 64) * b
       IN <<h[1] * 64 + n \div c, n % c>>
MulDiv(a, b, c) ==
  LET sg == (IF a < 0 THEN -1 ELSE 1) * (IF b < 0 THEN -1 ELSE 1) * (IF c < 0 THEN -1 ELSE 1)
      x == MDPos(AbsP(a), AbsP(b), AbsP(c))
  IN sg * (x[1] + (IF 2 * x[2] >= AbsP(c) THEN 1 ELSE 0))

(* 2^(x / 10^6) * 10^6 *)
MEGA == 1000000
Exp2Frac(f) ==       \* 0 <= f < 10^6: Taylor series of exp(f ln 2)
  LET y == MulDiv(f, 693147, MEGA)
      r == FoldLeft(LAMBDA a, n : LET t == MulDiv(a[2], y, MEGA * n) IN <<a[1] + t, t>>,
                    <<MEGA, MEGA>>, [n \in 1..9 |-> n])
  IN r[1]
RECURSIVE Shift(_, _)
Shift(v, n) == IF n = 0 THEN v ELSE IF n > 0 THEN Shift(2 * v, n - 1) ELSE Shift((v + 1) \div 2, n + 1)
\* m * 2^(x / 10^6), m <= 10^7 and the result within 32 bits
TimesExp2(m, x) == MulDiv(Shift(Exp2Frac(x % MEGA), x \div MEGA), m, MEGA)

(* ------------------------------- moist thermodynamics ----------------------------- *)
Pres4(p) == TimesExp2(10000000, MulDiv(p, 1000, 12))              \* pressure in 10^-4 hPa
Vapor4(d) ==         \* 6.112 exp(17.67 d / (d + 243.5)) in 10^-4 hPa, d in 0.01 degC
  LET x == MulDiv(17670000, d, d + 24350)                          \* 10^6 * exponent
  IN TimesExp2(61120, MulDiv(x, 1442695, MEGA))
\* e / (p - e) in 10^-6, or NA
Ratio6(d, p) ==
  LET p4 == Pres4(p)
      corr == 1001000 + MulDiv(p4 - 1000000, 3400, 9000000)
      e == MulDiv(Vapor4(d), corr, MEGA)
  IN IF 2 * e > p4 THEN NA ELSE MulDiv(e, MEGA, p4 - e)
\* virtual temperature in mK
Tv(t, d, p) ==
  IF ~ Ok(t) \/ ~ Ok(p) THEN NA
  ELSE LET k == 10 * t + 273150
           w == IF Ok(d) THEN Ratio6(d, p) ELSE NA
       IN IF ~ Ok(w) THEN k ELSE MulDiv(k, MEGA + w, MEGA + MulDiv(w, 62197, 100000))
\* thickness in 0.1 m of the layer between levels a (below) and b, NA when unknown
Thick(a, b) ==
  LET ta == Tv(a.t, a.d, a.p)  tb == Tv(b.t, b.d, b.p) IN
  IF ~ Ok(ta) \/ ~ Ok(tb) THEN NA
  ELSE MulDiv(MulDiv((ta + tb) \div 2, a.p - b.p, 1000), 169078, 10000000)

\* mixing ratio in 10^-3 g/kg; scale height in 0.1 m of the layer between a and b; height in
\* 0.1 m at pressure b above height z at pressure a, for a scale height h.  Pressures that are
\* not positive (NONPOS) have no logarithm and no vapour.
NONPOS == -2000000001
Mixr(d, p) ==
  IF ~ Ok(d) \/ ~ Ok(p) \/ p = NONPOS THEN NA
  ELSE LET r == Ratio6(d, p) IN IF ~ Ok(r) THEN NA ELSE MulDiv(r, 62197, 100000)
TvP(t, d, p) == IF p = NONPOS THEN Tv(t, NA, 0) ELSE Tv(t, d, p)
SclH(a, b) ==
  LET ta == TvP(a.t, a.d, a.p)  tb == TvP(b.t, b.d, b.p) IN
  IF ~ Ok(ta) \/ ~ Ok(tb) THEN NA ELSE MulDiv((ta + tb) \div 2, 2927140, 10000000)
Mhgt(z, pa, pb, h) ==
  IF ~ Ok(z) \/ ~ Ok(pa) \/ ~ Ok(pb) \/ ~ Ok(h) \/ NONPOS \in {pa, pb} THEN NA
  ELSE z + MulDiv(MulDiv(h, pa - pb, 12000), 693147, 1000000)

(* ----------------------- interpolation between two levels ------------------------- *)
Between(v, a, b) == (a < v /\ v < b) \/ (b < v /\ v < a)
Lin(x, y, v, a, b) == IF ~ Ok(x) \/ ~ Ok(y) THEN NA ELSE x + MulDiv(y - x, v - a, b - a)
\* directions: along the shorter arc; exactly opposite directions without a detour over north
TURN == 36000
Dir(x, y, v, a, b) ==
  IF ~ Ok(x) \/ ~ Ok(y) THEN NA
  ELSE LET m == x % TURN  n == y % TURN
           m2 == IF AbsP(m - n) > TURN \div 2 /\ m < n THEN m + TURN ELSE m
           n2 == IF AbsP(m - n) > TURN \div 2 /\ m >= n THEN n + TURN ELSE n
       IN (m2 + MulDiv(n2 - m2, v - a, b - a)) % TURN
\* everything at log pressure v between levels a and b
InterpLevel(v, a, b) ==
  [p |-> v, z |-> Lin(a.z, b.z, v, a.p, b.p), t |-> Lin(a.t, b.t, v, a.p, b.p),
   d |-> Lin(a.d, b.d, v, a.p, b.p), w |-> Dir(a.w, b.w, v, a.p, b.p), s |-> Lin(a.s, b.s, v, a.p, b.p)]

(* ------------------------------ whole profiles ------------------------------------- *)
Idx(L) == [i \in 1..Len(L) |-> i]
FirstI(L, T(_)) == SelectInSeq(Idx(L), T)
LastI(L, T(_)) == SelectLastInSeq(Idx(L), T)
\* first index > i satisfying T, or 0
NextI(L, i, T(_)) == SelectInSeq(Idx(L), LAMBDA j : j > i /\ T(j))
\* last index < i satisfying T, or 0
PrevI(L, i, T(_)) == SelectLastInSeq(Idx(L), LAMBDA j : j < i /\ T(j))

\* heights from temperatures, from the first level on that has pressure, temperature and height:
\* between known heights the layer thicknesses are scaled to fit, above the last one they are
\* used as they are.  Levels without pressure or temperature are passed over.
MoistHeights(L) ==
  LET kept(i) == Ok(L[i].p) /\ Ok(L[i].t)
      full(i) == kept(i) /\ Ok(L[i].z)
      f == FirstI(L, full)
      \* thickness from level f upwards
      th == FoldLeft(LAMBDA a, j :
              LET lo == PrevI(L, j, kept) IN
              Append(a, IF j <= f \/ f = 0 \/ ~ kept(j) THEN 0 ELSE a[lo] + Thick(L[lo], L[j])), <<>>, Idx(L))
      zat(j) ==
        LET lo == PrevI(L, j, full)  hi == NextI(L, j, full) IN
        IF f = 0 \/ j <= f \/ ~ kept(j) \/ full(j) THEN L[j].z
        ELSE IF hi = 0 THEN L[lo].z + th[j] - th[lo]
        ELSE L[lo].z + MulDiv(th[j] - th[lo], L[hi].z - L[lo].z, th[hi] - th[lo])
  IN [j \in 1..Len(L) |-> [L[j] EXCEPT !.z = zat(j)]]

\* heights linear in log pressure between known heights; above the last known height from
\* temperatures where there are any
LogHeights(L) ==
  LET kn(j) == Ok(L[j].z) /\ Ok(L[j].p)
      zat(j) ==
        LET lo == PrevI(L, j, kn)  hi == NextI(L, j, kn) IN
        IF Ok(L[j].z) \/ ~ Ok(L[j].p) \/ lo = 0 \/ hi = 0 THEN L[j].z
        ELSE Lin(L[lo].z, L[hi].z, L[j].p, L[lo].p, L[hi].p)
      top == LastI(L, kn)
      M == [j \in 1..Len(L) |-> [L[j] EXCEPT !.z = zat(j)]]
      \* b: the last level with temperature and height
      step(a, j) ==
        LET y == M[j]
            th == IF a.b = 0 \/ Ok(y.z) \/ ~ Ok(y.t) \/ ~ Ok(y.p) \/ ~ Ok(a.L[a.b].p) THEN NA ELSE Thick(a.L[a.b], y)
            z == IF Ok(y.z) THEN y.z ELSE IF Ok(th) THEN a.L[a.b].z + th ELSE NA
        IN [L |-> Append(a.L, [y EXCEPT !.z = z]), b |-> IF j >= top /\ Ok(z) /\ Ok(y.t) /\ Ok(y.p) THEN j ELSE a.b]
  IN FoldLeft(step, [L |-> <<>>, b |-> 0], Idx(L)).L

\* pressures of levels with height only: log pressure linear in height between levels with both
LogPressures(L) ==
  LET both(j) == Ok(L[j].p) /\ Ok(L[j].z)
      pat(j) ==
        LET lo == PrevI(L, j, both)  hi == NextI(L, j, both) IN
        IF Ok(L[j].p) \/ ~ Ok(L[j].z) \/ lo = 0 \/ hi = 0 THEN L[j].p
        ELSE L[lo].p + MulDiv(L[hi].p - L[lo].p, L[j].z - L[lo].z, L[hi].z - L[lo].z)
  IN [j \in 1..Len(L) |-> [L[j] EXCEPT !.p = pat(j)]]

P100 == -39863      \* 100 hPa
\* missing values between valid ones: temperature (with its dewpoint), wind, dewpoint alone
FillGaps(L) ==
  LET n == Len(L)
      \* one pass: level i takes its values from the level just below it, filled or reported,
      \* and the next level above that has the value
      fill(M, get(_), put(_, _), block(_, _)) ==
        FoldLeft(LAMBDA a, i :
                   LET hi == NextI(a, i, LAMBDA j : Ok(get(a[j]))) IN
                   IF i = 1 \/ i = n \/ Ok(get(a[i])) \/ hi = 0 THEN a
                   ELSE IF ~ Ok(a[i].p) \/ ~ Ok(a[i - 1].p) \/ ~ Ok(a[hi].p) \/ block(a[i - 1], a[hi]) THEN a
                   ELSE [a EXCEPT ![i] = put(@, InterpLevel(a[i].p, a[i - 1], a[hi]))],
                 M, Idx(M))
      never(x, y) == FALSE
      A == fill(L, LAMBDA x : x.t, LAMBDA x, y : [x EXCEPT !.t = y.t, !.d = y.d], never)
      B == fill(A, LAMBDA x : x.w, LAMBDA x, y : [x EXCEPT !.w = y.w, !.s = y.s], never)
  IN fill(B, LAMBDA x : x.d, LAMBDA x, y : [x EXCEPT !.d = y.d], LAMBDA x, y : x.p > P100 /\ y.p < P100)
=============================================================================
