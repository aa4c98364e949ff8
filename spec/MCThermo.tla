-------------------------------- MODULE MCThermo --------------------------------
(* The thermodynamic formulas on a grid of temperatures, dewpoints and pressures: moist air
   is lighter, more vapour with a higher dewpoint, layers add up, missing stays missing.   *)
EXTENDS Profile
VARIABLES t, d, p
Ts == {NA} \cup {100 * (5 * k) : k \in -16..8}
Ps == {NA, NONPOS} \cup {-3000 * k : k \in 0..24}
Init == t = NA /\ d = NA /\ p = NA
Next == t' \in Ts /\ d' \in Ts /\ p' \in Ps
Physical == Ok(t) /\ Ok(d) /\ Ok(p) /\ p # NONPOS /\ d <= t
Lv(tt, dd, pp) == [t |-> tt, d |-> dd, p |-> pp]
Missing ==
  /\ (~ Ok(t) \/ ~ Ok(p)) => TvP(t, d, p) = NA
  /\ (~ Ok(d) \/ ~ Ok(p) \/ p = NONPOS) => Mixr(d, p) = NA
  /\ ~ Ok(Mhgt(t, NONPOS, 0, 80000)) /\ ~ Ok(Mhgt(t, p, NONPOS, 80000)) /\ Mhgt(NA, 0, 0, 80000) = NA
Moist ==
  Physical => LET w == Mixr(d, p) IN
    /\ TvP(t, d, p) >= TvP(t, NA, p)
    /\ Ok(w) => /\ w >= 0
                /\ (w > 1000 => TvP(t, d, p) > TvP(t, NA, p))
                /\ (Ok(Mixr(d + 100, p)) => Mixr(d + 100, p) >= w)
                /\ Mixr(d, p + 3000) <= w
    /\ Vapor4(d + 100) >= Vapor4(d)
    \* about 1.06 times as much vapour per degree near 10 degrees
    /\ d = 1000 => (Vapor4(1100) * 100) \div Vapor4(1000) \in 106..107
Layers ==
  Physical =>
    LET a == Lv(t, d, p)  b == Lv(t - 500, d - 700, p - 1500)  c == Lv(t - 500, d - 700, p - 3000) IN
    /\ Thick(a, b) > 0 /\ Thick(a, a) = 0
    /\ AbsP(Thick(a, b) + Thick(b, a)) <= 1
    /\ AbsP(Thick(b, c) + Thick(c, b)) <= 1
    /\ AbsP(Mhgt(100, a.p, b.p, SclH(a, b)) - (100 + Thick(a, b))) <= 3
    /\ AbsP(Mhgt(Mhgt(100, p, p - 1500, 80000), p - 1500, p - 4000, 80000) - Mhgt(100, p, p - 4000, 80000)) <= 2
Inv == Missing /\ Moist /\ Layers
=============================================================================
