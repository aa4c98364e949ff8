------------------------------- MODULE MCReports -------------------------------
(* The report rules of DMReader on every file day of a leap and a common year end
   and every time group: a special report keeps its day, hour and minute, lies in
   the nearest month, and bad groups fall back to the file time; report texts are
   cut into exactly the reports they were built from.                            *)
EXTENDS DMReader
VARIABLES t, g, n
\* bounds: file days around the ends of Feb (leap, common), Dec, Apr, Jul, Aug
Days == {DayNo(y, m, d) : y \in {1999, 2000}, m \in {1, 2, 3, 4, 5, 8, 12}, d \in {1, 2, 14, 27, 28}}
        \cup {DayNo(2000, 2, 29), DayNo(1999, 12, 31), DayNo(1999, 1, 31), DayNo(2000, 4, 30)}
Init == /\ t \in {1440 * d + h : d \in Days, h \in {0, 1425}}
        /\ g \in {<<d, h, m>> : d \in 0..32, h \in {0, 23, 24}, m \in {0, 59, 60}} \cup {<<>>}
        /\ n \in {1, 3}
Next == UNCHANGED <<t, g, n>>
S == SpecialTimes(t, g)
Keeps ==
  /\ S # {}
  /\ g = <<>> => S = {t}
  /\ g # <<>> /\ S # {t} => \A s \in S :
       /\ (s % 1440) \div 60 = g[2] /\ s % 60 = g[3]
       /\ LET ym == Civil(s) IN s \div 1440 - DayNo(ym[1], ym[2], 1) + 1 = g[1]
  /\ g # <<>> /\ g[1] \in 1..28 /\ g[2] < 24 /\ g[3] < 60 => \A s \in S : Abs(s - t) <= 16 * 1440
  /\ g # <<>> /\ (g[1] \notin 1..31 \/ g[2] > 23 \/ g[3] > 59) => S = {t}
ID == <<75, 77, 83, 78>>
Dig(x) == <<48 + x \div 10, 48 + (x % 10)>>
Rpt(i) == ID \o <<32>> \o (IF g = <<>> THEN <<65>> ELSE Dig(g[1]) \o Dig(g[2]) \o Dig(g[3]) \o <<90>>)
          \o <<32, 65 + i>>
Text == Concat([i \in 1..n |-> Rpt(i) \o <<32, 10>>])
Cuts == /\ ReportsIn(Strip(Text)) = [i \in 1..n |-> Rpt(i)]
        /\ TimeGroup(Rpt(1)) = g
=============================================================================
