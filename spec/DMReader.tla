------------------------------- MODULE DMReader -------------------------------
(* What a DM file means to a reader: the listing, every record, the values each
   packing denotes, the surface reports held in text, and the answer to every
   query.  A file is a sequence of words in little-endian form; the byte order
   of the file itself is not part of its meaning.                              *)
EXTENDS DMSession

(* ---------------------------- cells and listing -------------------------------- *)
RecIdx(D, r, c, p) == SelectInSeq(D.recs, LAMBDA x : x.r = r /\ x.c = c /\ x.p = p)
PartsOf(D, r, c) == SelectSeq([p \in 1..Len(D.parts) |-> p], LAMBDA p : RecIdx(D, r, c, p) # 0)
UsedCells(D) ==
  LET nc == Len(D.cols) IN
  SelectSeq([k \in 1..(Len(D.rows) * nc) |-> <<((k - 1) \div nc) + 1, ((k - 1) % nc) + 1>>],
            LAMBDA q : D.rows[q[1]].used = 1 /\ D.cols[q[2]].used = 1)
\* a sounding or report is there when any of its parts is
DataCells(D) == SelectSeq(UsedCells(D), LAMBDA q : PartsOf(D, q[1], q[2]) # <<>>)

InKeys(keys, n) == SelectInSeq(keys, LAMBDA x : x = n) # 0
SurfaceType(D) ==
  LET used == Len(SelectSeq(D.rows, LAMBDA r : r.used = 1)) IN
  IF used = 1 /\ InKeys(D.ckeys, S_DATE) /\ InKeys(D.ckeys, S_STID) THEN "ship"
  ELSE IF InKeys(D.rkeys, S_DATE) /\ InKeys(D.ckeys, S_STID) THEN "standard"
  ELSE "climate"

\* k: file key (coordinates in 1/100 degree); x: observed (1/1000 degree)
StnExact(k, x) ==
  /\ AbsMin(x.t) = k.t /\ x.id = k.id /\ x.num = k.num /\ x.elev = k.elev
  /\ x.st = k.st /\ x.co = k.co /\ x.lat = 10 * k.lat /\ x.lon = 10 * k.lon
CellKey(D, q) == FileStnKey(D, [r |-> q[1], c |-> q[2]])

(* ------------------------------ part values -------------------------------------- *)
\* one entry per parameter: ty "f" float words, "q" scaled integers, "t" text
Pow10(n) == FoldLeft(LAMBDA a, x : 10 * a, 1, [i \in 1..n |-> i])
PackEntries(P, data) ==
  LET np == Len(P.params)
      bits == [j \in 1..np |-> P.params[j].bits]
      start == [j \in 1..np |-> FoldLeft(LAMBDA a, k : a + bits[k], 0, [k \in 1..(j - 1) |-> k])]
      tot == start[np] + bits[np]
      pw == ((tot - 1) \div 32) + 1
      n == Len(data) \div pw
      fld(i, j) == FieldL(SubSeq(data, (i - 1) * pw + 1, i * pw), start[j], bits[j])
  IN [j \in 1..np |->
       [n |-> P.params[j].name, ty |-> "q",
        v |-> [i \in 1..n |-> LET x == fld(i, j) IN
                 IF x = IMax(bits[j]) THEN MISSV ELSE x + P.params[j].offset]]]
RealEntries(P, data) ==
  LET np == Len(P.params)  n == Len(data) \div np IN
  [j \in 1..np |-> [n |-> P.params[j].name, ty |-> "f",
                    v |-> [i \in 1..n |-> data[(i - 1) * np + j]]]]
TextEntries(P, data) ==
  << [n |-> P.params[1].name, ty |-> "t", v |-> Strip(WordsText(data))] >>
Entries(D, r, c, p) ==
  LET x == D.recs[RecIdx(D, r, c, p)]  P == D.parts[p] IN
  IF P.typ = 4 THEN PackEntries(P, x.data)
  ELSE IF P.typ = 3 THEN TextEntries(P, x.data)
  ELSE RealEntries(P, x.data)
CellEntries(D, q) ==
  LET ps == PartsOf(D, q[1], q[2]) IN
  Concat([i \in 1..Len(ps) |-> Entries(D, q[1], q[2], ps[i])])

(* A missing value is the float the label declares (in raw data) or the all-ones field (in
   packed data).  Soundings and grids mask it, surface reports give the declared float.
   observed: x.b float bits (MASK: masked), x.q 16 * value / 10^scale, x.s text *)
MASK == 2143289344
ValOK(ty, v, b, q, miss) ==
  IF ty = "f" THEN b = v
  ELSE IF v = MISSV THEN b = miss
  ELSE b # miss /\ Abs(q - 16 * v) <= (Abs(v) \div 131072) + 1
Masked(D, v) == IF v = D.L.missf \/ IsNaN(v) THEN MASK ELSE v

(* ------------------------------ soundings ---------------------------------------- *)
SndExpect(D, q) ==
  LET es == CellEntries(D, q)
      vi == LET i == SelectInSeq(es, LAMBDA e : e.n = S_PRES) IN
            IF i # 0 THEN i ELSE SelectInSeq(es, LAMBDA e : e.n = S_HGHT)
      isP == es[vi].n = S_PRES
      n == Len(es[vi].v)
      k0(i) == IF es[vi].ty = "f" THEN FKey(es[vi].v[i]) ELSE es[vi].v[i]
      key(i) == IF isP THEN -(k0(i)) ELSE k0(i)
      ord == SortSeq([i \in 1..n |-> i], LAMBDA a, b : key(a) < key(b))
      perm(e) == [e EXCEPT !.v = [i \in 1..n |-> IF e.ty = "f" THEN Masked(D, e.v[ord[i]]) ELSE e.v[ord[i]]]]
  IN [k |-> CellKey(D, q), vc |-> IF isP THEN "pres" ELSE "hght", ve |-> perm(es[vi]),
      es |-> [i \in 1..(Len(es) - 1) |-> perm(es[IF i < vi THEN i ELSE i + 1])]]
SeqOK(e, b, q) == Len(b) = Len(e.v) /\ Len(q) = Len(e.v)
                  /\ \A i \in 1..Len(e.v) : ValOK(e.ty, e.v[i], b[i], q[i], MASK)
SndOK(X, x) ==
  /\ StnExact(X.k, x)
  /\ x.vc = X.vc /\ SeqOK(X.ve, x.vb, x.vq)
  /\ Len(x.pv) = Len(X.es)
  /\ \A i \in 1..Len(X.es) :
       \E j \in 1..Len(x.pv) : x.pv[j].n = Low(X.es[i].n) /\ SeqOK(X.es[i], x.pv[j].b, x.pv[j].q)

(* ------------------------------ surface ------------------------------------------- *)
S_TEXT == <<84,69,88,84>>  S_SPCL == <<83,80,67,76>>
IsUpper(c) == c \in 65..90
IsDigit(c) == c \in 48..57
StationOf(s) ==       \* leading station identifier of a report, or <<>>
  IF Len(s) >= 5 /\ IsUpper(s[1]) /\ (\A i \in 2..4 : IsUpper(s[i]) \/ IsDigit(s[i])) /\ IsWS(s[5])
  THEN SubSeq(s, 1, 4) ELSE <<>>
\* texts are cut at every occurrence of the station identifier
CutAt(s, id) ==
  SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : i + 3 <= Len(s) /\ SubSeq(s, i, i + 3) = id)
ReportsIn(s) ==
  LET id == StationOf(s)  at == CutAt(s, id) IN
  IF id = <<>> \/ Len(at) < 2 THEN <<s>>
  ELSE [i \in 1..Len(at) |->
          Strip(SubSeq(s, at[i], IF i = Len(at) THEN Len(s) ELSE at[i + 1] - 1))]
D2(s, i) == (s[i] - 48) * 10 + (s[i + 1] - 48)
TimeGroup(s) ==       \* <<day, hour, minute>> of the first ddhhmmZ group, or <<>>
  LET i == SelectInSeq([k \in 1..Len(s) |-> k], LAMBDA k :
             k + 6 <= Len(s) /\ s[k + 6] = 90 /\ \A j \in k..(k + 5) : IsDigit(s[j]))
  IN IF i = 0 THEN <<>> ELSE <<D2(s, i), D2(s, i + 2), D2(s, i + 4)>>
\* candidate instants of a time group in the month of t and its neighbours
Civil(tmin) ==        \* absolute minutes -> <<y, m>>
  LET day == tmin \div 1440
      y0 == 1970 + (day * 400) \div 146097
      y == IF DayNo(y0 + 1, 1, 1) <= day THEN y0 + 1 ELSE IF DayNo(y0, 1, 1) > day THEN y0 - 1 ELSE y0
      m == CHOOSE q \in 1..12 : DayNo(y, q, 1) <= day /\ (q = 12 \/ DayNo(y, q + 1, 1) > day)
  IN <<y, m>>
Candidates(t, g) ==
  LET ym == Civil(t)
      mo == {<<(12 * ym[1] + ym[2] - 1 + o) \div 12, ((12 * ym[1] + ym[2] - 1 + o) % 12) + 1>> : o \in {-1, 0, 1}}
  IN IF g = <<>> \/ g[2] > 23 \/ g[3] > 59 THEN {}
     ELSE {(DayNo(x[1], x[2], g[1]) * 24 + g[2]) * 60 + g[3] : x \in {y \in mo : ValidDate(y[1], y[2], g[1])}}
SpecialTimes(t, g) == LET C == Candidates(t, g) IN
  IF C = {} THEN {t} ELSE {c \in C : \A d \in C : Abs(c - t) <= Abs(d - t)}

\* expected reports of one cell: [k, ts: acceptable times, es, sp: special]
SfcReports(D, q) ==
  LET k == CellKey(D, q)
      ms == D.L.missf
      es == CellEntries(D, q)
      txt(n) == LET i == SelectInSeq(es, LAMBDA e : e.n = n /\ e.ty = "t") IN IF i = 0 THEN <<>> ELSE es[i].v
      has(n) == SelectInSeq(es, LAMBDA e : e.n = n) # 0
      vals == SelectSeq(es, LAMBDA e : ~ (e.n \in {S_TEXT, S_SPCL}))
      rep(n, s) == [n |-> n, ty |-> "t", v |-> s]
      m == IF txt(S_TEXT) = <<>> THEN <<>> ELSE ReportsIn(txt(S_TEXT))
      sp == IF txt(S_SPCL) = <<>> THEN <<>> ELSE ReportsIn(txt(S_SPCL))
  IN IF SurfaceType(D) # "standard" \/ ~ (has(S_TEXT) \/ has(S_SPCL))
     THEN << [k |-> k, miss |-> ms, ts |-> {k.t}, es |-> es, sp |-> IF has(S_SPCL) THEN 1 ELSE 0] >>
     ELSE IF m = <<>> /\ sp = <<>>
     THEN (IF vals = <<>> THEN <<>> ELSE << [k |-> k, miss |-> ms, ts |-> {k.t}, es |-> vals, sp |-> 0] >>)
     ELSE [i \in 1..Len(m) |-> [k |-> k, miss |-> ms, ts |-> {k.t}, es |-> vals \o <<rep(S_TEXT, m[i])>>, sp |-> 0]]
       \o [i \in 1..Len(sp) |->
             [k |-> k, miss |-> ms, ts |-> SpecialTimes(k.t, TimeGroup(sp[i])),
              es |-> (IF m = <<>> THEN vals ELSE <<>>) \o <<rep(S_SPCL, sp[i])>>, sp |-> 1]]

EntryOK(e, x, miss) ==      \* surface: one level
  /\ x.n = Low(e.n)
  /\ IF e.ty = "t" THEN x.k = "t" /\ x.s = e.v
     ELSE x.k = "f" /\ ValOK(e.ty, e.v[1], x.b, x.q, miss)
SfcOK(X, x) ==
  /\ StnExact([X.k EXCEPT !.t = AbsMin(x.t)], x) /\ AbsMin(x.t) \in X.ts
  /\ x.prio = X.k.prio
  /\ Len(x.pv) = Len(X.es)
  /\ \A i \in 1..Len(X.es) : \E j \in 1..Len(x.pv) : EntryOK(X.es[i], x.pv[j], X.miss)

(* -------------------------------- grids -------------------------------------------- *)
GridCols(D) == SelectSeq([c \in 1..Len(D.cols) |-> c], LAMBDA c : D.cols[c].used = 1)
GKey(D, c) == FileGridKey(D, [r |-> 1, c |-> c])
VcText(vc) == IF vc \in 0..8 THEN VCNAMES[vc + 1] ELSE WordText(vc)
LevI(l) == IF l < 0 THEN -1 ELSE l
GInfoOK(k, x) ==
  /\ x.ty = TYNAMES[k.t1.ty + 1] /\ AbsMin(x.t1) = ValidMin(k.t1)
  /\ x.h2 = k.h2 /\ (k.h2 = 1 => AbsMin(x.t2) = ValidMin(k.t2))
  /\ x.name = k.name /\ x.l1 = LevI(k.l1) /\ x.l2 = LevI(k.l2) /\ x.vc = VcText(k.vc)

\* values in units of 2^E as signed integers, with the magnitude their tolerance is relative to
Units(dy, E) == IF dy[1] = 0 THEN 0 ELSE dy[1] * P2(dy[2] - E)        \* dy[2] >= E, result within 32 bits
GridUnpack(w, nxy, nx, E) ==
  LET ty == w[1] IN
  IF ty = 0 THEN [b |-> [i \in 1..nxy |-> w[i + 1]], ty |-> 0]
  ELSE IF ty \in {1, 4} THEN
    LET nb == w[2]  ref == Units(Dy(w[5]), E)  sc == Units(Dy(w[6]), E)
        pk == SubSeq(w, 7, Len(w))
        code(i) == FieldM(pk, nb * (i - 1), nb)
    IN [ty |-> 1, v |-> [i \in 1..nxy |-> IF w[3] # 0 /\ code(i) = IMax(nb) THEN MISSV ELSE ref + code(i) * sc],
        m |-> [i \in 1..nxy |-> Max2(Abs(ref), IF w[3] # 0 /\ code(i) = IMax(nb) THEN 0 ELSE code(i) * Abs(sc))]]
  ELSE
    LET nb == w[2]  ref == Units(Dy(w[6]), E)  sc == Units(Dy(w[7]), E)  dm == Units(Dy(w[8]), E)
        pk == SubSeq(w, 9, Len(w))
        code(i) == FieldM(pk, nb * (i - 1), nb)
        step(a, i) ==
          LET newrow == (i - 1) % nx = 0
              line == IF newrow THEN 0 ELSE a.line
              miss == w[3] # 0 /\ code(i) = IMax(nb)
              d == dm + code(i) * sc
          IN IF miss THEN [a EXCEPT !.line = line, !.v = Append(@, MISSV)]
             ELSE IF a.first = 1 THEN [v |-> Append(a.v, ref), first |-> 0, line |-> 1, prev |-> ref, row |-> ref]
             ELSE IF line = 0 THEN [v |-> Append(a.v, a.row + d), first |-> 0, line |-> 1, prev |-> a.row + d, row |-> a.row + d]
             ELSE [a EXCEPT !.v = Append(@, a.prev + d), !.line = 1, !.prev = a.prev + d]
        r == FoldLeft(step, [v |-> <<>>, first |-> 1, line |-> 0, prev |-> 0, row |-> 0], [i \in 1..nxy |-> i])
    IN [ty |-> 1, v |-> r.v, m |-> Const(nxy, 0)]

\* the missing value in units of 2^E where it is a whole number of them (values equal to it are masked)
MissUnits(b, E) == LET d == Dy(b) IN IF d[2] >= E /\ d[2] - E <= 6 THEN {Units(d, E)} ELSE {}
GridExpect(D, c, nx, ny, E) ==
  [k |-> GKey(D, c), nx |-> nx, ny |-> ny,
   e |-> E, miss |-> D.L.missf, mu |-> MissUnits(D.L.missf, E),
   u |-> LET u == GridUnpack(D.recs[RecIdx(D, 1, c, 1)].data, nx * ny, nx, E) IN
         IF u.ty = 0 THEN [u EXCEPT !.b = [i \in 1..(nx * ny) |-> Masked(D, u.b[i])]] ELSE u]
GridOK(X, x) ==
  /\ x.var = VARNAME(X.k.name) /\ AbsMin(x.t) = ValidMin(X.k.t1) /\ x.ty = TYNAMES[X.k.t1.ty + 1]
  /\ x.vc = Low(VcText(X.k.vc)) /\ x.lev = LevI(X.k.l1) /\ x.nx = X.nx /\ x.ny = X.ny
  /\ IF X.u.ty = 0 THEN x.b = X.u.b
     ELSE /\ Len(x.q) = Len(X.u.v)
          /\ \A i \in 1..Len(x.q) :
               IF X.u.v[i] = MISSV \/ X.u.v[i] \in X.mu THEN x.b[i] = MASK
               ELSE x.b[i] # MASK /\ Abs(x.q[i] - X.u.v[i]) <= (Abs(X.u.v[i]) \div 4194304) + (X.u.m[i] \div 4194304)

(* ------------------------- the meaning of a file ------------------------------------- *)
\* listing entries [q, k]; records [q (cell), x (expected record)]
Meaning(e) ==
  LET D == Decode(e.w) IN
  IF e.kind = "grid" THEN
    LET cs == GridCols(D)
        withData == SelectSeq(cs, LAMBDA c : RecIdx(D, 1, c, 1) # 0)
    IN [kind |-> "grid", list |-> [i \in 1..Len(cs) |-> [q |-> <<1, cs[i]>>, k |-> GKey(D, cs[i])]],
        recs |-> [i \in 1..Len(withData) |->
                   [q |-> <<1, withData[i]>>, x |-> GridExpect(D, withData[i], e.nx, e.ny, e.e)]],
        opaque |-> 0, prev |-> <<>>]
  ELSE
    LET cells == DataCells(D) IN
    [kind |-> e.kind,
     list |-> [i \in 1..Len(cells) |-> [q |-> cells[i], k |-> CellKey(D, cells[i])]],
     recs |-> IF e.opaque = 1 THEN <<>>
              ELSE IF e.kind = "sounding"
              THEN [i \in 1..Len(cells) |-> [q |-> cells[i], x |-> SndExpect(D, cells[i])]]
              ELSE Concat([i \in 1..Len(cells) |->
                     LET rs == SfcReports(D, cells[i]) IN
                     [j \in 1..Len(rs) |-> [q |-> cells[i], x |-> rs[j]]]]),
     opaque |-> e.opaque, prev |-> <<>>]

ListOK(M, L, x) == IF M.kind = "grid" THEN GInfoOK(L.k, x) ELSE StnExact(L.k, x)
RecOK(M, R, x) == IF M.kind = "grid" THEN GridOK(R.x, x)
                  ELSE IF M.kind = "sounding" THEN SndOK(R.x, x) ELSE SfcOK(R.x, x)

(* ---------------------------------- queries -------------------------------------------- *)
\* a filter is [k, v]: k names the key, v the list of accepted values
KeyTime(M, k) == IF M.kind = "grid" THEN ValidMin(k.t1) ELSE k.t
Times2(M) == {ValidMin(L.k.t2) : L \in {M.list[i] : i \in {j \in 1..Len(M.list) : M.list[j].k.h2 = 1}}}
Passes(M, L, f) ==
  LET k == L.k  V == SeqToSet(f.v)
      ts == {KeyTime(M, M.list[i].k) : i \in 1..Len(M.list)}
  IN CASE f.k = "id" -> k.id \in {Up(x) : x \in V}
       [] f.k = "num" -> k.num \in V
       [] f.k = "st" -> k.st \in {Up(x) : x \in V}
       [] f.k = "co" -> k.co \in {Up(x) : x \in V}
       [] f.k = "t" -> KeyTime(M, k) \in {AbsMin(x) : x \in V}
       [] f.k = "first" -> \A t \in ts : KeyTime(M, k) <= t
       [] f.k = "last" -> \A t \in ts : KeyTime(M, k) >= t
       \* bounding box in 1/1000 degrees <<left, right, bottom, top>>
       [] f.k = "bbox" -> /\ 10 * k.lon >= f.v[1] /\ 10 * k.lon <= f.v[2]
                          /\ 10 * k.lat >= f.v[3] /\ 10 * k.lat <= f.v[4]
       [] f.k = "par" -> k.name \in {Up(x) : x \in V}
       [] f.k = "vc" -> VcText(k.vc) \in {Up(x) : x \in V}
       [] f.k = "lev" -> k.l1 >= 0 /\ k.l1 \in V
       [] f.k = "lev2" -> k.l2 >= 0 /\ k.l2 \in V
       [] f.k = "t2" -> k.h2 = 1 /\ ValidMin(k.t2) \in {AbsMin(x) : x \in V}
       [] f.k = "first2" -> k.h2 = 1 /\ \A t \in Times2(M) : ValidMin(k.t2) <= t
       [] f.k = "last2" -> k.h2 = 1 /\ \A t \in Times2(M) : ValidMin(k.t2) >= t
Selected(M, fs) == {M.list[i].q : i \in {j \in 1..Len(M.list) : \A n \in 1..Len(fs) : Passes(M, M.list[j], fs[n])}}
Wanted(M, fs, special) ==
  LET S == Selected(M, fs) IN
  SelectSeq(M.recs, LAMBDA R : R.q \in S /\ (M.kind # "surface" \/ special = 1 \/ R.x.sp = 0))

QueryOK(M, e) ==
  LET W == Wanted(M, e.filt, e.special) IN
  IF Selected(M, e.filt) = {} THEN e.out = "KeyError"
  ELSE /\ e.out = "ok"
       /\ IF M.opaque = 1 THEN TRUE
          ELSE Len(e.res) = Len(W) /\ \A i \in 1..Len(W) : RecOK(M, W[i], e.res[i])
ListingOK(M, e) ==
  /\ e.out = "ok" /\ Len(e.res) = Len(M.list)
  /\ \A i \in 1..Len(M.list) : ListOK(M, M.list[i], e.res[i])

\* nearest time: for every selected station with reports, one report no other of that station beats
Stations(M, fs, byNum) ==
  LET S == Selected(M, fs) IN
  {IF byNum THEN M.list[i].k.num ELSE M.list[i].k.id : i \in {j \in 1..Len(M.list) : M.list[j].q \in S}}
NearestOK(M, e) ==
  IF Len(e.filt) # 1 THEN e.out = "err"
  ELSE
  LET byNum == e.filt[1].k = "num"
      id(k) == IF byNum THEN k.num ELSE k.id
      St == Stations(M, e.filt, byNum)
      R(s) == {i \in 1..Len(M.recs) : id(M.recs[i].x.k) = s /\ (e.special = 1 \/ M.recs[i].x.sp = 0)}
      T == AbsMin(e.t)
      dist(i) == LET X == M.recs[i].x.ts IN CHOOSE d \in {Abs(t - T) : t \in X} : \A u \in X : d <= Abs(u - T)
      with == {s \in St : R(s) # {}}
      best(s) == {i \in R(s) : \A j \in R(s) : dist(i) <= dist(j)}
  IN IF St = {} THEN e.out = "KeyError" \/ (e.out = "ok" /\ e.res = <<>>)
     ELSE /\ e.out = "ok" /\ Len(e.res) = Cardinality(with)
          /\ \A s \in with :
               \E n \in 1..Len(e.res) : \E i \in best(s) : RecOK(M, M.recs[i], e.res[n])
=============================================================================
