------------------------------- MODULE Words -------------------------------
(* 32-bit words, bytes, text, bit fields, calendar.  TLC integers are 32-bit,
   so a file word is a *signed* 32-bit integer; text is a sequence of byte
   codes (0..255).                                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
P2Tab == [n \in 0..30 |-> Pow2(n)]
P2(n) == P2Tab[n]

Byte(w, k) == (w \div P2(8 * k)) % 256                 \* k = 0 is least significant
Bytes(w) == [k \in 1..4 |-> Byte(w, k - 1)]            \* bytes in file order (LE)
WordOf(b) == b[1] + 256 * b[2] + 65536 * b[3]
             + (IF b[4] >= 128 THEN b[4] - 256 ELSE b[4]) * 16777216

(* --- text ----------------------------------------------------------------- *)
SP == 32
UpC(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Up(s) == [i \in 1..Len(s) |-> UpC(s[i])]
IsWS(c) == c \in {9, 10, 11, 12, 13, 28, 29, 30, 31, 32}
RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ IsWS(Head(s)) THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ IsWS(s[Len(s)]) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))
PadTo(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE SP]
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
TextWord(s) == WordOf(PadTo(s, 4))                     \* at most 4 codes
TextWords(s, n) == [i \in 1..n |-> TextWord(SubSeq(PadTo(s, 4 * n), 4 * i - 3, 4 * i))]
WordText(w) == Bytes(w)
WordsText(ws) == FoldLeft(LAMBDA a, w : a \o Bytes(w), <<>>, ws)

(* --- bit fields ------------------------------------------------------------ *)
\* bit i (1 = most significant) of word w
BitM(w, i) == IF i = 1 THEN (IF w < 0 THEN 1 ELSE 0) ELSE (w \div P2(32 - i)) % 2
\* n-bit unsigned field (n <= 31) starting at bit number s (0-based) of a
\* most-significant-bit-first stream of words
FieldM(ws, s, n) ==
  FoldLeft(LAMBDA a, k : 2 * a + BitM(ws[((s + k) \div 32) + 1], ((s + k) % 32) + 1),
           0, [k \in 1..n |-> k - 1])
\* least-significant-bit-first: bit k of the field has weight 2^k
BitL(w, i) == BitM(w, 32 - i)                          \* i = 0..31
FieldL(ws, s, n) ==
  FoldLeft(LAMBDA a, k : 2 * a + BitL(ws[((s + n - 1 - k) \div 32) + 1], (s + n - 1 - k) % 32),
           0, [k \in 1..n |-> k - 1])
\* word from 32 bits, most significant first
WordFromBitsM(b) ==
  FoldLeft(LAMBDA a, x : 2 * a + x, IF b[1] = 1 THEN -1 ELSE 0, Tail(b))
FieldBitsM(v, n) == [i \in 1..n |-> (v \div P2(n - i)) % 2]     \* n <= 31
\* pack a sequence of n-bit values MSB first into words (zero padded)
PackM(vals, n) ==
  LET nb == n * Len(vals)
      nw == (nb + 31) \div 32
      bit(k) == IF k >= nb THEN 0
                ELSE LET v == vals[(k \div n) + 1] IN (v \div P2(n - 1 - (k % n))) % 2
  IN  [w \in 1..nw |-> WordFromBitsM([i \in 1..32 |-> bit(32 * (w - 1) + i - 1)])]
\* pack one record of (value, nbits) pairs LSB first
PackL(vals, bits) ==
  LET start(j) == FoldLeft(LAMBDA a, k : a + bits[k], 0, [k \in 1..(j - 1) |-> k])
      tot == start(Len(bits) + 1)
      nw  == IF tot = 0 THEN 1 ELSE (tot - 1) \div 32 + 1
      owner(k) == CHOOSE j \in 1..Len(bits) : start(j) <= k /\ k < start(j) + bits[j]
      bit(k) == IF k >= tot THEN 0
                ELSE LET j == owner(k) IN (vals[j] \div P2(k - start(j))) % 2
  IN  [w \in 1..nw |-> WordFromBitsM([i \in 1..32 |-> bit(32 * (w - 1) + 32 - i)])]

(* --- calendar -------------------------------------------------------------- *)
DayNo(y, m, d) ==      \* days since 1970-01-01 (civil)
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
\* a time is <<y, m, d, H, M>>; absolute minutes
AbsMin(t) == (DayNo(t[1], t[2], t[3]) * 24 + t[4]) * 60 + t[5]
Pivot(yy) == IF yy < 69 THEN 2000 + yy ELSE 1900 + yy
YY(y) == y % 100

SeqToSet(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
