------------------------------ MODULE ProfileTrace ------------------------------
(* Judges recorded merges of unmerged soundings and calls of the profile
   functions against Merge and Profile.                                         *)
EXTENDS Merge, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>

Near(x, y, tol) == IF ~ Ok(x) \/ ~ Ok(y) THEN x = y ELSE AbsP(x - y) <= tol
NearDir(x, y, tol) ==
  IF ~ Ok(x) \/ ~ Ok(y) THEN x = y
  ELSE LET g == (x - y) % TURN IN g <= tol \/ TURN - g <= tol
\* grid pressures are exact, pressures interpolated from heights are not
PTol(p) == IF p % 1000 = 0 THEN 1 ELSE 40
LevelTol(x, y, r(_)) ==       \* r(f): extra tolerance of a field
  /\ Near(x.p, y.p, IF Ok(x.p) THEN PTol(x.p) ELSE 0) /\ Near(x.z, y.z, 15 + r("z"))
  /\ Near(x.t, y.t, 5 + r("t")) /\ Near(x.d, y.d, 5 + r("d"))
  /\ NearDir(x.w, y.w, 30 + r("w")) /\ y.w <= TURN /\ (Ok(y.w) => y.w >= 0) /\ Near(x.s, y.s, 5 + r("s"))
LevelOK(x, y) == LevelTol(x, y, LAMBDA f : 0)
\* in a thin layer one unit of pressure is worth two units of the gradient
Thin(L, i) == IF i = 1 \/ i = Len(L) THEN FALSE
              ELSE Ok(L[i - 1].p) /\ Ok(L[i + 1].p) /\ L[i - 1].p - L[i + 1].p < 800
Grad(L, i, f) ==
  LET a == L[i - 1][f]  b == L[i + 1][f]
      d == IF ~ Ok(a) \/ ~ Ok(b) THEN 0
           ELSE IF f = "w" THEN Min({(a - b) % TURN, (b - a) % TURN}) ELSE AbsP(a - b)
  IN 2 * (d \div Max({1, L[i - 1].p - L[i + 1].p}))
ProfileOK(L, M) ==
  Len(L) = Len(M) /\ \A i \in 1..Len(L) :
    IF Thin(L, i) THEN LevelTol(L[i], M[i], LAMBDA f : Grad(L, i, f)) ELSE LevelOK(L[i], M[i])

Fails(e) ==
  LET c(b, s) == IF b THEN <<>> ELSE <<e.pid \o ":" \o s>> IN
  IF e.ev = "merge" THEN
    (IF Total(e.P) = 0 THEN c(e.out = "none", "empty")
     ELSE IF e.out # "ok" THEN c(FALSE, IF e.out = "hang" THEN "termination" ELSE "merge-fails")
     ELSE LET X == MergeParts(e.P) IN
          IF X.sure = 0 THEN <<>>
          ELSE c(ProfileOK(Listed(X.L), e.res), "profile") \o c(Near(X.L[1].p, e.sp, 2), "surface-first"))
  ELSE IF e.ev = "point" THEN
    (IF Ok(e.v) /\ Ok(e.a.p) /\ Ok(e.b.p) /\ Between(e.v, e.a.p, e.b.p)
     THEN c(e.out = "ok" /\ LevelOK(InterpLevel(e.v, e.a, e.b), e.res), "level")
     ELSE c(e.out = "ValueError", "error"))
  ELSE IF e.out # "ok" THEN c(FALSE, e.out)
  ELSE IF e.ev = "fill" THEN c(ProfileOK(FillGaps(e.L), e.res), "gaps")
  ELSE IF e.ev = "moist" THEN c(ProfileOK(MoistHeights(e.L), e.res), "moist-heights")
  ELSE IF e.ev = "logz" THEN c(ProfileOK(LogHeights(e.L), e.res), "log-heights")
  ELSE IF e.ev = "logp" THEN c(ProfileOK(LogPressures(e.L), e.res), "log-pressures")
  ELSE IF e.ev = "tv" THEN c(Near(TvP(e.t, e.d, e.p), e.res, 12), "virtual-temperature")
  ELSE IF e.ev = "ratio" THEN c(\E m \in {Mixr(e.d, e.p)} : Near(m, e.res, 3 + (IF Ok(m) THEN m \div 10000 + 2 * (m \div (1 + Vapor4(e.d))) ELSE 0)), "mixing-ratio")
  ELSE IF e.ev = "sclh" THEN c(Near(SclH(e.a, e.b), e.res, 8), "scale-height")
  ELSE IF e.ev = "mhgt" THEN c(\E m \in {Mhgt(e.z, e.pa, e.pb, e.h)} : Near(m, e.res, 3 + (IF Ok(m) THEN AbsP(m - e.z) \div 20000 ELSE 0)), "height")
  ELSE IF e.ev = "vapor" THEN
    c(IF ~ Ok(e.d) THEN e.res = NA ELSE AbsP(Vapor4(e.d) - e.res) <= 3 + Vapor4(e.d) \div 50000, "vapor-pressure")
  ELSE c(FALSE, "unknown-event")
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]  fs == Fails(e) IN
     bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) => JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
