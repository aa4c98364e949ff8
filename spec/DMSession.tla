------------------------------ MODULE DMSession ------------------------------
(* The writers as state machines.  An object is
     [kind, params, nx, ny, prec, e, content, taint]
   with content a sequence of [k |-> key, d |-> data] (distinct keys); every add
   of a key replaces the data held for it (last write wins), a rejected add
   changes nothing, a write does not change the object.                       *)
EXTENDS DM, Floats

MISSV == -2000000000        \* "missing" marker in scaled integer grids
NOKEY == -99999             \* "not given" marker for station numbers etc.

VCNAMES == << <<78,79,78,69>>, <<80,82,69,83>>, <<84,72,84,65>>, <<72,71,72,84>>,
              <<83,71,77,65>>, <<68,80,84,72>>, <<72,89,66,68>>, <<80,86,65,66>>,
              <<80,86,66,76>> >>
VCode(name) == LET i == SelectInSeq(VCNAMES, LAMBDA x : x = Up(name)) IN i - 1

Put(content, k, d) ==
  LET i == SelectInSeq(content, LAMBDA x : x.k = k)
  IN IF i = 0 THEN Append(content, [k |-> k, d |-> d])
     ELSE [content EXCEPT ![i].d = d]
Contents(o) == SeqToSet(o.content)

Norm(b) == IF IsNaN(b) THEN MISSF ELSE b

(* ---- keys and data of an add event ----------------------------------------- *)
Dflt(x, d) == IF x = NOKEY THEN d ELSE x
\* what identifies a report is what the file can hold: minutes, hundredths of a degree
ToHund(x) == IF x >= 0 THEN 10 * ((x + 5) \div 10) ELSE -(10 * ((5 - x) \div 10))
StnKey(kind, x) ==
  [ t |-> AbsMin(x.t), lat |-> ToHund(x.lat), lon |-> ToHund(x.lon),
    id |-> IF x.info = 1 THEN Take(Up(x.sid), 8) ELSE <<>>,
    num |-> IF x.info = 1 THEN Dflt(x.num, MISSI) ELSE MISSI,
    elev |-> IF x.info = 1 THEN Dflt(x.elev, MISSI) ELSE MISSI,
    st |-> IF x.info = 1 THEN Take(Up(x.st), 4) ELSE <<>>,
    co |-> IF x.info = 1 THEN Take(Up(x.co), 4) ELSE <<>>,
    prio |-> IF kind = "surface" /\ x.info = 1 THEN Dflt(x.prio, 0) ELSE 0 ]

\* data of a sounding/surface add, in file parameter order: [param -> values]
StnData(o, x) ==
  [i \in 1..Len(o.params) |->
     LET j == SelectInSeq(x.data, LAMBDA q : Up(q.n) = o.params[i])
     IN [n \in 1..Len(x.data[j].v) |-> Norm(x.data[j].v[n])]]

\* grid time: [ty, t, fh, fm]; analyses are keyed by their valid time
GTime(tm) ==
  IF tm.ty = 0 THEN [ty |-> 0, t |-> AbsMin(tm.t) + 60 * tm.fh + tm.fm, fh |-> 0, fm |-> 0]
  ELSE [ty |-> tm.ty, t |-> AbsMin(tm.t), fh |-> tm.fh, fm |-> tm.fm]
NoTime == [ty |-> 0, t |-> 0, fh |-> 0, fm |-> 0]
GridKey(x) ==
  [ t1 |-> GTime(x.t1), h2 |-> x.h2, t2 |-> IF x.h2 = 1 THEN GTime(x.t2) ELSE NoTime,
    l1 |-> x.l1, l2 |-> x.l2, vc |-> VCode(x.vc), name |-> Strip(Up(x.name)) ]
GridData(x) == [v |-> x.v, e |-> x.e]

(* ---- actions --------------------------------------------------------------- *)
NewObj(x) == [ kind |-> x.kind, params |-> [i \in 1..Len(x.params) |-> Up(x.params[i])],
               nx |-> x.nx, ny |-> x.ny, prec |-> x.prec, content |-> <<>>, taint |-> 0 ]
Accept(o, x) ==
  IF o.kind = "grid" THEN [o EXCEPT !.content = Put(@, GridKey(x), GridData(x))]
  ELSE [o EXCEPT !.content = Put(@, StnKey(o.kind, x), StnData(o, x))]
\* headers a file with these contents has: a row for every time and a column for every
\* station, for grids one row and a column for every grid
NHead(o) ==
  IF o.kind = "grid" THEN 1 + Len(o.content)
  ELSE Cardinality({o.content[i].k.t : i \in 1..Len(o.content)})
       + Cardinality({[o.content[i].k EXCEPT !.t = 0] : i \in 1..Len(o.content)})
\* a file has room for cap headers (0: as many as an object ever gets here)
Room(o, x) == x.cap = 0 \/ NHead(Accept(o, x)) <= x.cap
DoAdd(o, x) ==
  IF x.out = "ok" THEN (IF x.bad = "" THEN Accept(o, x) ELSE [o EXCEPT !.taint = 1])
  ELSE o

(* ---- what a written file must contain --------------------------------------- *)
KeyIdx(names, n) == SelectInSeq(names, LAMBDA x : x = n)
S_DATE == <<68,65,84,69>>  S_TIME == <<84,73,77,69>>  S_STID == <<83,84,73,68>>
S_STNM == <<83,84,78,77>>  S_SLAT == <<83,76,65,84>>  S_SLON == <<83,76,79,78>>
S_SELV == <<83,69,76,86>>  S_STAT == <<83,84,65,84>>  S_COUN == <<67,79,85,78>>
S_STD2 == <<83,84,68,50>>  S_SPRI == <<83,80,82,73>>
S_GDT1 == <<71,68,84,49>>  S_GTM1 == <<71,84,77,49>>  S_GDT2 == <<71,68,84,50>>
S_GTM2 == <<71,84,77,50>>  S_GLV1 == <<71,76,86,49>>  S_GLV2 == <<71,76,86,50>>
S_GVCD == <<71,86,67,68>>  S_GPM1 == <<71,80,77,49>>  S_GPM2 == <<71,80,77,50>>
S_GPM3 == <<71,80,77,51>>

\* header value of a key for cell (r, c); HasKey must hold
HasKey(D, n) == KeyIdx(D.rkeys, n) # 0 \/ KeyIdx(D.ckeys, n) # 0
HVal(D, r, c, n) ==
  IF KeyIdx(D.rkeys, n) # 0 THEN D.rows[r].w[KeyIdx(D.rkeys, n)]
  ELSE D.cols[c].w[KeyIdx(D.ckeys, n)]
HText(D, r, c, n) == Strip(WordText(HVal(D, r, c, n)))
DateOK(d) == d >= 0 /\ d <= 991231 /\ ValidDate(Pivot(d \div 10000), (d \div 100) % 100, d % 100)
DateMin(d) == DayNo(Pivot(d \div 10000), (d \div 100) % 100, d % 100) * 1440
HM(t) == (t \div 100) * 60 + (t % 100)

FileStnKey(D, x) ==
  LET v(n) == HVal(D, x.r, x.c, n)
      t(n) == HText(D, x.r, x.c, n)
  IN [ t |-> DateMin(v(S_DATE)) + HM(v(S_TIME)), lat |-> v(S_SLAT), lon |-> v(S_SLON),
       id |-> t(S_STID) \o (IF HasKey(D, S_STD2) THEN t(S_STD2) ELSE <<>>),
       num |-> v(S_STNM), elev |-> v(S_SELV), st |-> t(S_STAT), co |-> t(S_COUN),
       prio |-> IF HasKey(D, S_SPRI) THEN v(S_SPRI) ELSE 0 ]
StnKeyMatch(k, fk) ==       \* k: 1/1000 degrees, fk: 1/100 degrees
  /\ k.t = fk.t /\ k.id = fk.id /\ k.num = fk.num /\ k.elev = fk.elev
  /\ k.st = fk.st /\ k.co = fk.co /\ k.prio = fk.prio
  /\ Abs(10 * fk.lat - k.lat) <= 5 /\ Abs(10 * fk.lon - k.lon) <= 5

\* forecast/analysis key words -> grid time
GTimeOf(gdt, gtm) ==
  LET ty == gtm \div 100000  hm == gtm % 100000
      base == IF gdt < 100000000 THEN DateMin(gdt)
              ELSE DayNo(Pivot((gdt \div 10000) % 100), gdt \div 100000000, (gdt \div 1000000) % 100) * 1440
                   + HM(gdt % 10000)
  IN IF ty = 0 THEN [ty |-> 0, t |-> base + HM(hm), fh |-> 0, fm |-> 0]
     ELSE [ty |-> ty, t |-> base, fh |-> hm \div 100, fm |-> hm % 100]
FileGridKey(D, x) ==
  LET v(n) == HVal(D, x.r, x.c, n)
      t(n) == WordText(v(n))
      h2 == IF v(S_GDT2) = 0 THEN 0 ELSE 1
  IN [ t1 |-> GTimeOf(v(S_GDT1), v(S_GTM1)), h2 |-> h2,
       t2 |-> IF h2 = 1 THEN GTimeOf(v(S_GDT2), v(S_GTM2)) ELSE [NoTime EXCEPT !.t = v(S_GTM2)],
       l1 |-> v(S_GLV1), l2 |-> v(S_GLV2), vc |-> v(S_GVCD),
       name |-> Strip(t(S_GPM1) \o t(S_GPM2) \o t(S_GPM3)) ]

StnWords(o, d) ==           \* level-major
  LET np == Len(d)  n == Len(d[1])
  IN [i \in 1..(n * np) |-> d[((i - 1) % np) + 1][((i - 1) \div np) + 1]]
HHMM(tmin) == LET m == tmin % 1440 IN (m \div 60) * 100 + (m % 60)

(* ---- GRIB packing ------------------------------------------------------------ *)
Present(g) == SelectSeq([i \in 1..Len(g.v) |-> g.v[i]], LAMBDA x : x # MISSV)
MinOf(s) == FoldLeft(LAMBDA a, x : Min2(a, x), s[1], s)
MaxOf(s) == FoldLeft(LAMBDA a, x : Max2(a, x), s[1], s)
\* largest code
IMax(nb) == IF nb = 31 THEN 2147483647 ELSE P2(nb) - 1
NearestCode(d, q, code) ==   \* code is a nearest integer to d * 2^q, d >= 0
  IF d = 0 THEN code = 0
  ELSE IF q >= 31 THEN FALSE
  ELSE IF q >= 0 THEN code % P2(q) = 0 /\ code \div P2(q) = d
  ELSE IF -q > 30 THEN code = 0
  ELSE LET h == P2(-q - 1) IN
       code = (d \div P2(-q)) + (IF d % P2(-q) >= h THEN 1 ELSE 0)
       \/ (d % P2(-q) = h /\ code = d \div P2(-q))
\* scale is the finest power of two for which the range stays below the missing code
GribFails(o, g, x) ==
  LET n == o.nx * o.ny  nb == o.prec  w == x.data
      nw == (nb * n + 31) \div 32
      c(b, s) == IF b THEN <<>> ELSE <<s>>
  IN IF ~ (x.hdr = <<o.nx, o.ny>> /\ Len(w) = 6 + nw)
     THEN <<"G09:record-shape">>
     ELSE IF ~ (w[1] = 1 /\ w[2] = nb /\ w[4] = n) THEN <<"G09:record-header">>
     ELSE
     LET packed == SubSeq(w, 7, Len(w))
         code(i) == FieldM(packed, nb * (i - 1), nb)
         vals == Present(g)
         miss(i) == g.v[i] = MISSV
     IN IF vals = <<>> THEN c(w[3] # 0 /\ \A i \in 1..n : code(i) = IMax(nb), "G09:missing-code")
        ELSE LET mn == MinOf(vals)  mx == MaxOf(vals)  sc == Dy(w[6]) IN
        c(w[3] # 0 \/ Len(vals) = n, "G09:missing-flag")
        \o c(Dy(w[5]) = Canon(mn, g.e), "G09:reference")
        \o (IF sc[1] # 1 THEN <<"G09:scale">>
            ELSE c(\A i \in 1..n : miss(i) => code(i) = IMax(nb), "G09:missing-code")
              \o c(\A i \in 1..n : ~ miss(i) => w[3] = 0 \/ code(i) # IMax(nb), "G09:valid-as-missing")
              \o c(\A i \in 1..n : ~ miss(i) => NearestCode(g.v[i] - mn, g.e - sc[2], code(i)),
                   "G09:codes"))
        \* unused bits at the end of the last word stay zero
        \o c(\A b \in (nb * n)..(32 * nw - 1) : mn = mx \/ BitM(packed[(b \div 32) + 1], (b % 32) + 1) = 0,
             "G09:slack")

(* ---- judging a written file ---------------------------------------------------- *)
PidOf(o) == IF o.kind = "grid" THEN "G01" ELSE IF o.kind = "sounding" THEN "G02" ELSE "G03"
KeysNeeded(o) == IF o.kind = "grid"
   THEN {S_GDT1, S_GTM1, S_GDT2, S_GTM2, S_GLV1, S_GLV2, S_GVCD, S_GPM1, S_GPM2, S_GPM3}
   ELSE {S_DATE, S_TIME, S_STID, S_STNM, S_SLAT, S_SLON, S_SELV, S_STAT, S_COUN, S_STD2}
        \cup (IF o.kind = "surface" THEN {S_SPRI} ELSE {})
S_SNDT == <<83,78,68,84>>  S_SFDT == <<83,70,68,84>>  S_GRID == <<71,82,73,68>>
PartName(o) == IF o.kind = "grid" THEN S_GRID ELSE IF o.kind = "sounding" THEN S_SNDT ELSE S_SFDT
FTypeOf(o) == IF o.kind = "grid" THEN 3 ELSE IF o.kind = "sounding" THEN 2 ELSE 1

FileMatches(o, D, x, it) ==
  IF o.kind = "grid" THEN FileGridKey(D, x) = it.k ELSE StnKeyMatch(it.k, FileStnKey(D, x))

WriteFails(o, f, nbytes) ==
  LET wf == WellFormed(f, nbytes)
      g5 == [i \in 1..Len(wf) |-> "G05:" \o wf[i]]
      pid == PidOf(o)
      c(b, s) == IF b THEN <<>> ELSE <<s>>
  IN IF SelectInSeq(wf, LAMBDA n : n = "decodable") # 0 THEN g5 \o <<pid \o ":file-undecodable">>
     ELSE
     LET D == Decode(f)
         rk == {HVal(D, i, 1, D.rkeys[1]) : i \in {}}
     IN IF ~ (\A n \in KeysNeeded(o) : HasKey(D, n)) THEN g5 \o <<"G05:keys">>
        ELSE
        LET match(it) == SelectSeq(D.recs, LAMBDA x : FileMatches(o, D, x, it))
            kfail == c(Len(D.recs) = Len(o.content)
                       /\ \A i \in 1..Len(o.content) : Len(match(o.content[i])) = 1, pid \o ":file-keys")
            dfail == IF kfail # <<>> THEN <<>>
                     ELSE IF o.kind = "grid"
                     THEN Concat([i \in 1..Len(o.content) |->
                                    GribFails(o, o.content[i].d, match(o.content[i])[1])])
                     ELSE c(\A i \in 1..Len(o.content) :
                              LET x == match(o.content[i])[1] IN
                                /\ x.data = StnWords(o, o.content[i].d), pid \o ":file-data")
                          \o c(\A i \in 1..Len(o.content) :
                              match(o.content[i])[1].hdr = <<HHMM(o.content[i].k.t)>>, "G05:record-time")
            tfail == c(D.L.ftype = FTypeOf(o), "G05:file-type")
                \o c(Len(D.parts) = 1 /\ D.parts[1].name = PartName(o)
                     /\ D.parts[1].hdr = (IF o.kind = "grid" THEN 2 ELSE 1)
                     /\ D.parts[1].typ = (IF o.kind = "grid" THEN 5 ELSE 1)
                     /\ (o.kind = "grid" => D.rkeys = <<S_GRID>>), "G05:part")
                \o c([i \in 1..Len(D.parts[1].params) |-> D.parts[1].params[i].name]
                     = IF o.kind = "grid" THEN <<S_GRID>>
                       ELSE [i \in 1..Len(o.params) |-> Strip(o.params[i])], "G05:parameters")
                \o c(o.kind = "grid" \/ Cardinality({[i \in 1..Len(D.rkeys) |-> D.rows[r].w[i]] : r \in 1..Len(D.rows)})
                       = Len(D.rows), "G05:duplicate-rows")
                \o c(Cardinality({D.cols[i].w : i \in 1..Len(D.cols)}) = Len(D.cols), "G05:duplicate-columns")
                \o c(\A i \in 1..Len(D.rows) : o.content = <<>> \/ \E j \in 1..Len(D.recs) : D.recs[j].r = i, "G05:empty-row")
                \o c(\A i \in 1..Len(D.cols) : \E j \in 1..Len(D.recs) : D.recs[j].c = i, "G05:empty-column")
        IN g5 \o kfail \o dfail \o tfail

(* ---- judging what the reader returns --------------------------------------------- *)
StnRecMatch(k, x) ==
  /\ AbsMin(x.t) = k.t /\ x.id = k.id /\ x.num = k.num /\ x.elev = k.elev
  /\ x.st = k.st /\ x.co = k.co /\ Abs(x.lat - k.lat) <= 5 /\ Abs(x.lon - k.lon) <= 5
LowC(cc) == IF cc >= 65 /\ cc <= 90 THEN cc + 32 ELSE cc
Low(s) == [i \in 1..Len(s) |-> LowC(s[i])]
S_PRES == <<80,82,69,83>>  S_HGHT == <<72,71,72,84>>

SndFails(o, it, x) ==        \* x: returned record of item it
  LET isP == KeyIdx(o.params, S_PRES) # 0
      vi == IF isP THEN KeyIdx(o.params, S_PRES) ELSE KeyIdx(o.params, S_HGHT)
      n == Len(it.d[1])
      key(i) == IF isP THEN -(FKey(it.d[vi][i])) ELSE FKey(it.d[vi][i])
      ord == SortSeq([i \in 1..n |-> i], LAMBDA a, b : key(a) < key(b))
      others == SelectSeq([i \in 1..Len(o.params) |-> i], LAMBDA i : i # vi)
      got(i) == SelectInSeq(x.pv, LAMBDA q : q.n = Low(o.params[i]))
  IN IF x.vc # (IF isP THEN "pres" ELSE "hght") THEN <<"G02:vertical-coordinate">>
     ELSE IF x.vcv # [i \in 1..n |-> it.d[vi][ord[i]]] THEN <<"G02:levels">>
     ELSE IF Len(x.pv) # Len(others) \/ \E k \in 1..Len(others) : got(others[k]) = 0
          THEN <<"G02:parameters">>
     ELSE IF \A k \in 1..Len(others) :
               x.pv[got(others[k])].v = [i \in 1..n |-> it.d[others[k]][ord[i]]]
          THEN <<>> ELSE <<"G02:values">>

SfcFails(o, it, x) ==
  LET got(i) == SelectInSeq(x.pv, LAMBDA q : q.n = Low(o.params[i]))
  IN (IF x.prio = it.k.prio THEN <<>> ELSE <<"G03:priority">>)
     \o IF Len(x.pv) # Len(o.params) \/ \E i \in 1..Len(o.params) : got(i) = 0
        THEN <<"G03:parameters">>
        ELSE IF \A i \in 1..Len(o.params) : x.pv[got(i)].v = it.d[i] THEN <<>> ELSE <<"G03:values">>

TYNAMES == <<"analysis", "forecast", "guess", "initial">>
ValidMin(gt) == gt.t + 60 * gt.fh + gt.fm
GridInfoMatch(k, x) ==
  /\ x.ty = TYNAMES[k.t1.ty + 1] /\ AbsMin(x.t1) = ValidMin(k.t1)
  /\ x.h2 = k.h2 /\ (k.h2 = 1 => AbsMin(x.t2) = ValidMin(k.t2))
  /\ x.name = k.name /\ x.l1 = k.l1 /\ x.l2 = k.l2 /\ x.vc = VCNAMES[k.vc + 1]
\* returned values are scaled by 2^(8-e): |dv - 256 m| small
Tol(rng, nb) == IF rng = 0 THEN 0
                ELSE IF nb >= 29 THEN 1 ELSE (512 * rng) \div (P2(nb + 1) - 3) + 1
GridVals(o, it, x) ==
  LET g == it.d  vals == Present(g)
      rng == IF vals = <<>> THEN 0 ELSE MaxOf(vals) - MinOf(vals)
  IN IF Len(x.v) # Len(g.v) THEN <<"G01:shape">>
     ELSE (IF \A i \in 1..Len(g.v) : (g.v[i] = MISSV) <=> (x.v[i] = MISSV) THEN <<>> ELSE <<"G01:missing">>)
       \o (IF \A i \in 1..Len(g.v) : (g.v[i] # MISSV /\ x.v[i] # MISSV) =>
                 Abs(x.v[i] - 256 * g.v[i]) <= Tol(rng, o.prec) THEN <<>> ELSE <<"G01:values">>)
VARNAME(n) == IF n = S_PRES THEN <<112>> ELSE IF n = S_HGHT THEN <<122>>
              ELSE IF n = <<84,72,84,65>> THEN <<116,104,101,116,97>> ELSE Low(n)
GridFails(o, it, x) ==
  (IF x.var = VARNAME(it.k.name) /\ AbsMin(x.t) = ValidMin(it.k.t1)
      /\ x.vc = Low(VCNAMES[it.k.vc + 1]) /\ x.lev = it.k.l1 /\ x.ty = TYNAMES[it.k.t1.ty + 1]
      /\ x.nx = o.nx /\ x.ny = o.ny
   THEN <<>> ELSE <<"G01:labels">>) \o GridVals(o, it, x)

ReadFails(o, e) ==
  LET pid == PidOf(o)
      n == Len(o.content)
      m(it, x) == IF o.kind = "grid" THEN GridInfoMatch(it.k, x) ELSE StnRecMatch(it.k, x)
      idx(it) == SelectInSeq(e.listing, LAMBDA x : m(it, x))
      uniq(it) == Len(SelectSeq(e.listing, LAMBDA x : m(it, x))) = 1
  IN IF e.out # "ok" THEN (IF n = 0 THEN <<>> ELSE <<pid \o ":read-error">>)
     ELSE IF ~ (Len(e.listing) = n /\ \A i \in 1..n : uniq(o.content[i])) THEN <<pid \o ":listing">>
     ELSE IF n = 0 THEN <<>>
     ELSE IF Len(e.recs) # n THEN <<pid \o ":records">>
     ELSE Concat([i \in 1..n |->
            LET it == o.content[i]  x == e.recs[idx(it)] IN
            IF o.kind = "grid" THEN GridFails(o, it, x)
            ELSE (IF m(it, x) THEN <<>> ELSE <<pid \o ":record-keys">>)
                 \o (IF o.kind = "sounding" THEN SndFails(o, it, x) ELSE SfcFails(o, it, x))])
          \* keyed lookup of every added grid returns that grid (among equal keys)
          \o (IF o.kind = "grid"
              THEN Concat([q \in 1..Len(e.lookups) |->
                     LET L == e.lookups[q]
                         i == SelectInSeq(o.content, LAMBDA it : it.k = GridKey(L))
                     IN IF i = 0 THEN <<>>
                        ELSE IF L.got = <<>> THEN <<"G01:lookup">>
                        ELSE IF \E r \in 1..Len(L.got) : GridFails(o, o.content[i], L.got[r]) = <<>>
                        THEN <<>> ELSE <<"G01:lookup">>])
              ELSE <<>>)
=============================================================================
