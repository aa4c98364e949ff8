--------------------------------- MODULE Merge ---------------------------------
(* How the parts of an unmerged upper-air sounding combine into one profile.
   A part is a sequence of levels (fields as in Profile); Parts has the fields
   TTAA PPAA TRPA MXWA TTBB PPBB TTCC PPCC TRPC MXWC TTDD PPDD (absent: <<>>),
   bz/dz = 1 when PPBB/PPDD winds are on heights rather than pressures, selv.  *)
EXTENDS Profile

NOLEVEL == [p |-> NA, z |-> NA, t |-> NA, d |-> NA, w |-> NA, s |-> NA]
P1050 == 845  P1060 == 1009  PINF == 1000000
Pressures(L) == [i \in 1..Len(L) |-> L[i].p]
AtP(L, p) == SelectInSeq(L, LAMBDA x : Ok(x.p) /\ x.p = p)
\* above the surface levels are in order of decreasing pressure
PlaceP(L, x) ==
  LET k == Cardinality({i \in 2..Len(L) : L[i].p > x.p}) IN
  SubSeq(L, 1, 1 + k) \o <<x>> \o SubSeq(L, 2 + k, Len(L))

(* --- the surface: TTAA, unless it is unusable; then TTBB and PPBB ---------------- *)
Surface(P) ==
  LET a == IF P.TTAA = <<>> THEN NOLEVEL ELSE [P.TTAA[1] EXCEPT !.z = P.selv]
      i == SelectInSeq(P.TTAA, LAMBDA x : Ok(x.p) /\ Ok(x.t) /\ Ok(x.z))
      bad == ~ Ok(a.p) \/ a.p > P1060 \/ (i # 0 /\ a.p < P.TTAA[i].p)
      b == IF bad THEN NOLEVEL ELSE a
      c == IF P.TTBB # <<>> /\ Ok(P.TTBB[1].p) /\ Ok(P.TTBB[1].t) /\ (~ Ok(b.p) \/ b.p = P.TTBB[1].p)
           THEN [b EXCEPT !.p = P.TTBB[1].p, !.t = P.TTBB[1].t, !.d = P.TTBB[1].d] ELSE b
      w == P.PPBB
  IN IF w = <<>> \/ ~ Ok(w[1].w) THEN c
     ELSE IF P.bz = 1 THEN (IF w[1].z = 0 THEN [c EXCEPT !.w = w[1].w, !.s = w[1].s] ELSE c)
     ELSE IF Ok(w[1].p) /\ (~ Ok(c.p) \/ c.p = w[1].p)
     THEN [c EXCEPT !.p = w[1].p, !.w = w[1].w, !.s = w[1].s] ELSE c

(* --- mandatory levels: complete ones above the last level ------------------------ *)
AddMan(L, levels) ==
  FoldLeft(LAMBDA a, x :
             LET last == IF Len(a) = 1 /\ ~ Ok(a[1].p) THEN 12000 ELSE a[Len(a)].p IN
             IF Ok(x.p) /\ Ok(x.t) /\ Ok(x.z) /\ x.p < last THEN Append(a, x) ELSE a,
           L, levels)
\* winds reported for mandatory levels of which nothing else was missing
AddManWind(L, levels) ==
  FoldLeft(LAMBDA a, x :
             LET k == AtP(a, x.p) IN
             IF Ok(x.p) /\ k > 1 /\ ~ Ok(a[k].w) THEN [a EXCEPT ![k].w = x.w, ![k].s = x.s] ELSE a,
           L, levels)

(* --- levels with temperature: tropopauses (with wind) and significant levels ------ *)
FirstBelow(L, levels) ==       \* the highest pressure a new level may have
  IF Ok(L[1].p) THEN L[1].p
  ELSE IF Len(L) > 1 /\ ~ (Len(levels) > 1 /\ Ok(levels[2].p) /\ L[2].p < levels[2].p) THEN L[2].p
  ELSE P1050
\* a: [L, b]; levels come in order of decreasing pressure, others are not used
AddT(a0, levels, trop) ==
  FoldLeft(LAMBDA a, x :
    IF ~ Ok(x.p) THEN a
    ELSE IF ~ Ok(x.t) THEN [a EXCEPT !.b = Min({@, x.p})]
    ELSE IF x.p > a.b THEN a
    ELSE LET k == AtP(a.L, x.p)
             y == a.L[k]
             y1 == IF Ok(y.t) THEN y ELSE [y EXCEPT !.t = x.t, !.d = x.d]
             y2 == IF ~ trop THEN y1
                   ELSE [(IF Ok(y1.w) THEN y1 ELSE [y1 EXCEPT !.w = x.w, !.s = x.s]) EXCEPT !.z = NA]
             new == IF trop THEN [x EXCEPT !.z = NA] ELSE [x EXCEPT !.z = NA, !.w = NA, !.s = NA]
         IN [L |-> IF k # 0 THEN [a.L EXCEPT ![k] = y2] ELSE PlaceP(a.L, new), b |-> x.p],
    a0, levels)
AddTemps(L, low, high, trop) ==
  IF low = <<>> /\ high = <<>> THEN L
  ELSE AddT(AddT([L |-> L, b |-> FirstBelow(L, low)], low, trop), high, trop).L

(* --- winds on pressures ------------------------------------------------------------ *)
AddW(a0, levels) ==
  FoldLeft(LAMBDA a, x :
    IF ~ Ok(x.p) THEN a
    ELSE IF ~ Ok(x.w) \/ ~ Ok(x.s) THEN [a EXCEPT !.b = Min({@, x.p})]
    ELSE IF x.p > a.b THEN a
    ELSE LET k == AtP(a.L, x.p)
             y == a.L[k]
         IN [L |-> IF k = 0 THEN PlaceP(a.L, [NOLEVEL EXCEPT !.p = x.p, !.w = x.w, !.s = x.s])
                   ELSE IF Ok(y.w) /\ Ok(y.s) THEN a.L ELSE [a.L EXCEPT ![k].w = x.w, ![k].s = x.s],
             b |-> x.p],
    a0, levels)
AddWinds(L, low, high) ==
  IF low = <<>> /\ high = <<>> THEN L
  ELSE LET b == IF Ok(L[1].p) THEN L[1].p ELSE IF Len(L) > 1 THEN L[2].p ELSE -PINF
       IN AddW(AddW([L |-> L, b |-> b], low), high).L

(* --- winds on heights ---------------------------------------------------------------- *)
(* A cursor climbs the profile: the next wind lies between the levels i - 1 and i.
   Winds above the last known height are not used.  sure = 0 when an outcome hangs on
   a computed height closer to the wind than the arithmetic can tell.               *)
TEN == 10      \* 1 m
Close(h, z) == AbsP(h - z) <= 30
AddZ(L, winds, anchored(_)) ==
  LET start == IF Len(L) >= 2 /\ Ok(L[1].p) /\ Ok(L[1].z) THEN 2 ELSE IF Len(L) >= 3 THEN 3 ELSE 0
      go == IF start # 0 /\ Ok(L[start - 1].z) /\ Ok(L[start].z) THEN 1 ELSE 0
      climb(a, h) ==     \* to the first level at or above h
        LET stop == SelectInSeq(Idx(a.L), LAMBDA j : j >= a.i /\ (~ Ok(a.L[j].z) \/ a.L[j].z >= h)) IN
        IF stop = 0 \/ ~ Ok(a.L[stop].z) THEN [a EXCEPT !.go = 0] ELSE [a EXCEPT !.i = stop]
      fuzzy(a, h) == \E j \in Max({1, a.i - 1})..Len(a.L) :
                       Ok(a.L[j].z) /\ Close(h, a.L[j].z) /\ ~ anchored(a.L[j].z)
      step(a, x) ==
        IF a.go = 0 THEN a
        ELSE LET zo == a.L[a.i - 1].z
                 u == [a EXCEPT !.sure = IF Ok(x.z) /\ fuzzy(a, x.z) THEN 0 ELSE @]
             IN IF ~ Ok(x.z) \/ x.z <= zo THEN u
                ELSE IF x.z - zo < TEN
                THEN (IF Ok(u.L[u.i - 1].w) /\ Ok(u.L[u.i - 1].s) THEN u
                      ELSE [u EXCEPT !.L[a.i - 1].w = x.w, !.L[a.i - 1].s = x.s])
                ELSE LET c == IF x.z > u.L[u.i].z THEN climb(u, x.z) ELSE u IN
                     IF c.go = 0 THEN c
                     ELSE IF c.L[c.i].z - x.z < TEN
                     THEN (IF Ok(c.L[c.i].w) /\ Ok(c.L[c.i].s) THEN c
                           ELSE [c EXCEPT !.L[c.i].w = x.w, !.L[c.i].s = x.s])
                     ELSE [c EXCEPT !.L = SubSeq(@, 1, c.i - 1)
                                          \o <<[NOLEVEL EXCEPT !.z = x.z, !.w = x.w, !.s = x.s]>>
                                          \o SubSeq(@, c.i, Len(@)),
                                    !.i = c.i + 1]
  IN FoldLeft(step, [L |-> L, i |-> start, go |-> go, sure |-> 1], winds)

(* --- the whole merge -------------------------------------------------------------- *)
Total(P) == Len(P.TTAA) + Len(P.PPAA) + Len(P.TRPA) + Len(P.MXWA) + Len(P.TTBB) + Len(P.PPBB)
            + Len(P.TTCC) + Len(P.PPCC) + Len(P.TRPC) + Len(P.MXWC) + Len(P.TTDD) + Len(P.PPDD)
BelowGround(P, L) ==
  IF ~ Ok(L[1].p) THEN L
  ELSE FoldLeft(LAMBDA a, x : IF Ok(x.p) /\ x.p > L[1].p THEN PlaceP(a, x) ELSE a, L, Tail(P.TTAA))
MergeParts(P) ==
  LET l1 == <<Surface(P)>>
      l2 == AddMan(AddMan(l1, IF P.TTAA = <<>> THEN <<>> ELSE Tail(P.TTAA)), P.TTCC)
      man == P.TTAA # <<>> /\ Len(l2) >= 2
      l3 == IF man THEN AddManWind(AddManWind(l2, P.PPAA), P.PPCC) ELSE l2
      l4 == AddTemps(l3, P.TRPA, P.TRPC, TRUE)
      l5 == AddTemps(l4, P.TTBB, P.TTDD, FALSE)
      l6 == MoistHeights(l5)
      pw == IF P.bz = 0 THEN P.PPBB ELSE <<>>
      aw == IF P.dz = 0 THEN P.PPDD ELSE <<>>
      l7 == AddWinds(l6, pw, aw)
      l8 == LogHeights(AddWinds(l7, P.MXWA, P.MXWC))
      zb == IF P.bz = 0 \/ P.PPBB = <<>> THEN <<>>
            ELSE IF P.PPBB[1].z = 0 \/ P.PPBB[1].z = l8[1].z THEN Tail(P.PPBB) ELSE P.PPBB
      zw == zb \o (IF P.dz = 1 THEN P.PPDD ELSE <<>>)
      reported == {l5[i].z : i \in {j \in 1..Len(l5) : Ok(l5[j].t)}}
                  \cup {zw[i].z : i \in 1..Len(zw)}
      r9 == AddZ(l8, zw, LAMBDA z : z \in reported)
      l10 == FillGaps(LogPressures(r9.L))
  IN [L |-> IF P.TTAA = <<>> THEN l10 ELSE BelowGround(P, l10), sure |-> r9.sure]

\* as listed: by decreasing pressure, without pressure last
Listed(L) ==
  LET key(x) == IF Ok(x.p) THEN x.p ELSE -PINF IN
  SortSeq(L, LAMBDA a, b : key(a) > key(b))
=============================================================================
