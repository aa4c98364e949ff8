------------------------------- MODULE DMWriter -------------------------------
(* The abstract writer: object contents -> DM description -> file words.       *)
EXTENDS DMSession

Distinct(s) == FoldLeft(LAMBDA a, x : IF SelectInSeq(a, LAMBDA y : y = x) = 0
                                       THEN Append(a, x) ELSE a, <<>>, s)
Hund(x) == IF x >= 0 THEN (x + 5) \div 10 ELSE -((5 - x) \div 10)    \* 1/1000 -> 1/100
DateWord(tmin) ==      \* absolute minutes -> yymmdd, by search over the pivot window
  LET day == tmin \div 1440
      y0 == 1970 + (day * 400) \div 146097
      y == IF DayNo(y0 + 1, 1, 1) <= day THEN y0 + 1 ELSE IF DayNo(y0, 1, 1) > day THEN y0 - 1 ELSE y0
      m == CHOOSE q \in 1..12 : DayNo(y, q, 1) <= day /\ (q = 12 \/ DayNo(y, q + 1, 1) > day)
      d == day - DayNo(y, m, 1) + 1
  IN [y |-> y, m |-> m, d |-> d, yymmdd |-> ((y % 100) * 100 + m) * 100 + d,
      mdy |-> (m * 100 + d) * 100 + (y % 100)]

(* ---- sounding and surface --------------------------------------------------- *)
ColKeys(kind) == <<S_STID, S_STNM, S_SLAT, S_SLON, S_SELV, S_STAT, S_COUN, S_STD2>>
                 \o (IF kind = "surface" THEN <<S_SPRI>> ELSE <<>>)
ColWords(kind, k) ==
  <<TextWord(Take(k.id, 4)), k.num, Hund(k.lat), Hund(k.lon), k.elev,
    TextWord(k.st), TextWord(k.co), TextWord(Drop(k.id, 4))>>
  \o (IF kind = "surface" THEN <<k.prio>> ELSE <<>>)
ColTx(kind) == <<1, 0, 0, 0, 0, 1, 1, 1>> \o (IF kind = "surface" THEN <<0>> ELSE <<>>)

StnDesc(o) ==
  LET ts == Distinct([i \in 1..Len(o.content) |-> o.content[i].k.t])
      cs == Distinct([i \in 1..Len(o.content) |-> ColWords(o.kind, o.content[i].k)])
      ix(s, v) == SelectInSeq(s, LAMBDA x : x = v)
      rec(i) == LET it == o.content[i] w == StnWords(o, it.d) IN
        [r |-> ix(ts, it.k.t), c |-> ix(cs, ColWords(o.kind, it.k)), p |-> 1,
         hdr |-> <<HHMM(it.k.t)>>, data |-> w, tx |-> Const(Len(w), 0)]
  IN [ftype |-> FTypeOf(o), src |-> IF o.kind = "sounding" THEN 4 ELSE 2, fh |-> <<>>,
      rkeys |-> <<S_DATE, S_TIME>>, ckeys |-> ColKeys(o.kind),
      rows |-> [i \in 1..Len(ts) |-> [used |-> 1, w |-> <<DateWord(ts[i]).yymmdd, HHMM(ts[i])>>,
                                       tx |-> <<0, 0>>]],
      cols |-> [i \in 1..Len(cs) |-> [used |-> 1, w |-> cs[i], tx |-> ColTx(o.kind)]],
      parts |-> <<[name |-> IF o.kind = "sounding" THEN S_SNDT ELSE S_SFDT, hdr |-> 1, typ |-> 1,
                   params |-> [i \in 1..Len(o.params) |->
                      [name |-> o.params[i], scale |-> 0, offset |-> 0, bits |-> 0]]]>>,
      recs |-> [i \in 1..Len(o.content) |-> rec(i)]]

(* ---- grids -------------------------------------------------------------------- *)
GDTWord(g) == IF g.ty = 0 THEN DateWord(g.t).yymmdd ELSE DateWord(g.t).mdy * 10000 + HHMM(g.t)
GTMWord(g) == g.ty * 100000 + (IF g.ty = 0 THEN HHMM(g.t) ELSE g.fh * 100 + g.fm)
GridColWords(k) ==
  LET n == PadTo(k.name, 12) IN
  <<GDTWord(k.t1), GTMWord(k.t1), IF k.h2 = 1 THEN GDTWord(k.t2) ELSE 0,
    IF k.h2 = 1 THEN GTMWord(k.t2) ELSE 0, k.l1, k.l2, k.vc,
    TextWord(SubSeq(n, 1, 4)), TextWord(SubSeq(n, 5, 8)), TextWord(SubSeq(n, 9, 12))>>
GRIDKEYS == <<S_GDT1, S_GTM1, S_GDT2, S_GTM2, S_GLV1, S_GLV2, S_GVCD, S_GPM1, S_GPM2, S_GPM3>>
GRIDTX == <<0, 0, 0, 0, 0, 0, 0, 1, 1, 1>>
S_NAVB == <<78,65,86,66>>  S_ANLB == <<65,78,76,66>>

\* finest power of two s with rng * 2^s (rounded) below the missing code; values are m * 2^e
RoundScaled(d, q) == IF q >= 0 THEN d * P2(q)
                     ELSE LET h == P2(-q - 1) IN d \div P2(-q) + (IF d % P2(-q) > h THEN 1
                          ELSE IF d % P2(-q) < h THEN 0
                          ELSE (d \div P2(-q)) % 2)
Fits(rng, q, nb) == IF q >= 0 THEN rng < IMax(nb) /\ (q = 0 \/ rng <= (IMax(nb) - 1) \div P2(q))
                    ELSE RoundScaled(rng, q) < IMax(nb)
RECURSIVE Finest(_, _, _)
Finest(rng, q, nb) == IF ~ Fits(rng, q, nb) THEN Finest(rng, q - 1, nb)
                      ELSE IF q < 24 /\ Fits(rng, q + 1, nb) THEN Finest(rng, q + 1, nb) ELSE q
GribWords(o, g) ==
  LET nb == o.prec  n == Len(g.v)  vals == Present(g)
      mn == IF vals = <<>> THEN 0 ELSE MinOf(vals)
      rng == IF vals = <<>> THEN 0 ELSE MaxOf(vals) - mn
      q == IF rng = 0 THEN 0 ELSE Finest(rng, 0, nb)
      codes == [i \in 1..n |-> IF g.v[i] = MISSV THEN IMax(nb) ELSE RoundScaled(g.v[i] - mn, q)]
  IN <<1, nb, IF Len(vals) = n THEN 0 ELSE -1, n,
       IF vals = <<>> THEN MISSF ELSE FBits(mn, g.e), FBits(1, g.e - q)>> \o PackM(codes, nb)

GridDesc(o) ==
  LET n == Len(o.content) IN
     [ftype |-> 3, src |-> 6,
      fh |-> <<[name |-> S_NAVB, typ |-> 1, w |-> Const(4, 0), tx |-> Const(4, 0)],
               [name |-> S_ANLB, typ |-> 1, w |-> Const(3, 0), tx |-> Const(3, 0)]>>,
      rkeys |-> <<S_GRID>>, ckeys |-> GRIDKEYS,
      rows |-> <<[used |-> 1, w |-> <<1>>, tx |-> <<0>>]>>,
      cols |-> [i \in 1..n |-> [used |-> 1, w |-> GridColWords(o.content[i].k), tx |-> GRIDTX]],
      parts |-> <<[name |-> S_GRID, hdr |-> 2, typ |-> 5,
                   params |-> <<[name |-> S_GRID, scale |-> 0, offset |-> 0, bits |-> 0]>>]>>,
      recs |-> [i \in 1..n |-> LET w == GribWords(o, o.content[i].d) IN
        [r |-> 1, c |-> i, p |-> 1, hdr |-> <<o.nx, o.ny>>, data |-> w, tx |-> Const(Len(w), 0)]]]

FileOf(o) == Encode(IF o.kind = "grid" THEN GridDesc(o) ELSE StnDesc(o), CanonLay)
=============================================================================
