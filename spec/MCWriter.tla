------------------------------- MODULE MCWriter -------------------------------
(* Model of the file objects: every history of adds (two keys per axis, two data
   values), rejected adds and writes, up to MAXLEN operations.  Checks that
     - contents are exactly the last data per key (independent of order),
     - writing changes nothing, rejected adds change nothing,
     - the encoded file decodes to the contents, is well formed, and is accepted
       by the trace judge, while every single-word corruption of a meaningful
       word is rejected by it.
   The explored histories are exported for replay against the library.         *)
EXTENDS DMWriter, Json, IOUtils
CONSTANTS KIND, MAXLEN

VARIABLES obj, hist
vars == <<obj, hist>>

Keys == 1..3
Datas == 1..2

T(i) == IF i = 2 THEN <<2024, 2, 29, 6, 15>> ELSE <<1999, 12, 31, 12, 0>>
SX(k, d) ==   \* sounding/surface add
  [out |-> "ok", bad |-> "", info |-> IF k = 3 THEN 0 ELSE 1, t |-> T(k), sid |-> <<107, 109, 115, 110, 49, 50>>,
   num |-> 725, lat |-> 43125, lon |-> -89005, elev |-> -5, st |-> <<119, 105>>, co |-> <<85, 83>>,
   prio |-> 4,
   data |-> IF KIND = "sounding"
            THEN <<[n |-> <<112,114,101,115>>, v |-> <<1148846080, 1120403456>>],
                   [n |-> <<84,69,77,80>>, v |-> <<d, 2143289344>>]>>
            ELSE <<[n |-> <<84,77,80,67>>, v |-> <<d>>], [n |-> <<97,108,116,105>>, v |-> <<2143289344>>]>>]
GX(k, d) ==
  [out |-> "ok", bad |-> "",
   t1 |-> IF k = 2 THEN [ty |-> 1, t |-> T(2), fh |-> 36, fm |-> 30] ELSE [ty |-> 0, t |-> T(1), fh |-> 14, fm |-> 0],
   h2 |-> IF k = 2 THEN 1 ELSE 0, t2 |-> [ty |-> 1, t |-> T(1), fh |-> 0, fm |-> 0],
   l1 |-> 500, l2 |-> IF k = 3 THEN 700 ELSE -1, vc |-> <<112,114,101,115>>, name |-> <<116,109,112,107,120>>,
   v |-> IF d = 1 THEN <<-3, 7, MISSV, 0, 5, 6>> ELSE <<4, 4, 4, 4, 4, 4>>, e |-> -1]
X(k, d) == IF KIND = "grid" THEN GX(k, d) ELSE SX(k, d)

Init ==
  /\ obj = NewObj([kind |-> KIND, nx |-> 3, ny |-> 2, prec |-> 5,
       params |-> IF KIND = "sounding" THEN << <<112,114,101,115>>, <<84,69,77,80>> >>
                  ELSE IF KIND = "surface" THEN << <<116,109,112,99>>, <<65,76,84,73>> >> ELSE <<>>])
  /\ hist = <<>>

Ops == {[op |-> "add", k |-> k, d |-> d] : k \in Keys, d \in Datas}
       \cup {[op |-> "bad", k |-> 1, d |-> 1], [op |-> "write", k |-> 0, d |-> 0]}
Apply(o, p) == IF p.op = "add" THEN DoAdd(o, X(p.k, p.d))
               ELSE IF p.op = "bad" THEN DoAdd(o, [X(p.k, p.d) EXCEPT !.out = "err", !.bad = "x"])
               ELSE o
Next == /\ Len(hist) < MAXLEN
        /\ \E p \in Ops :
             /\ p.op = "write" => hist # <<>> /\ hist[Len(hist)].op # "write"
             /\ obj' = Apply(obj, p) /\ hist' = Append(hist, p)

KeyOf(k) == IF KIND = "grid" THEN GridKey(GX(k, 1)) ELSE StnKey(KIND, SX(k, 1))
DataOf(d) == IF KIND = "grid" THEN GridData(GX(1, d)) ELSE StnData(obj, SX(1, d))
LastOf(k) == LET is == {i \in 1..Len(hist) : hist[i].op = "add" /\ hist[i].k = k}
             IN IF is = {} THEN 0 ELSE hist[CHOOSE i \in is : \A j \in is : j <= i].d
LastWins ==
  /\ Contents(obj) = {[k |-> KeyOf(k), d |-> DataOf(LastOf(k))] : k \in {q \in Keys : LastOf(q) # 0}}
  /\ Len(obj.content) = Cardinality({q \in Keys : LastOf(q) # 0})

RoundTrip ==
  LET f == FileOf(obj).w  d == IF KIND = "grid" THEN GridDesc(obj) ELSE StnDesc(obj)  D == Decode(f)
  IN obj.content # <<>> =>
     /\ Decodable(f)
     /\ D.parts = d.parts /\ D.rkeys = d.rkeys /\ D.ckeys = d.ckeys
     /\ [i \in 1..Len(D.rows) |-> D.rows[i].w] = [i \in 1..Len(d.rows) |-> d.rows[i].w]
     /\ [i \in 1..Len(D.cols) |-> D.cols[i].w] = [i \in 1..Len(d.cols) |-> d.cols[i].w]
     /\ {[r |-> x.r, c |-> x.c, p |-> x.p, hdr |-> x.hdr, data |-> x.data] : x \in SeqToSet(D.recs)}
        = {[r |-> x.r, c |-> x.c, p |-> x.p, hdr |-> x.hdr, data |-> x.data] : x \in SeqToSet(d.recs)}
Accepted == obj.content # <<>> => WriteFails(obj, FileOf(obj).w, 4 * Len(FileOf(obj).w)) = <<>>

\* words whose value the format leaves open: reserved label words, free-space details,
\* navigation/analysis contents (judged by another specification), gaps
Covered(f) == LET D == Decode(f)  L == D.L
                  lab == (1..27) \cup {31}
                  iv == Tail(Intervals(f, D))
                  rng == UNION {iv[i][1]..(iv[i][1] + iv[i][2] - 1) : i \in 2..Len(iv)}
                  \* the missing flag may be set or cleared when no field is all ones
                  flg == IF KIND = "grid" THEN {D.recs[i].start + 5 : i \in 1..Len(D.recs)}
                         ELSE {}
                  fhw == IF L.nfh = 0 THEN {} ELSE (L.fk)..(L.fk + 3 * L.nfh + 9)
              IN (lab \cup rng \cup {L.dm}) \ (fhw \cup flg \cup {10, 25} \cup (L.rh)..(L.rh + IF KIND = "grid" THEN 1 ELSE -1))
Corrupt(f, i) == [f EXCEPT ![i] = IF @ = 77777 THEN 77778 ELSE IF i = Label(f).dm THEN 2 ELSE 77777]
Sensitive ==
  (Len(hist) <= 2 /\ obj.content # <<>>) =>
    LET f == FileOf(obj).w IN
    \A i \in Covered(f) :
      \* the scale word may be any exact power of two fine enough; its mantissa must be one
      \/ WriteFails(obj, Corrupt(f, i), 4 * Len(f)) # <<>>
      \/ Print(<<"insensitive", i, f[i]>>, FALSE)
Export == (Len(hist) = MAXLEN) => Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
              [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
