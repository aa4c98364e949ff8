------------------------------- MODULE MCLayout -------------------------------
(* Every layout reachable by at most MAXMOVES moves from the canonical one has the
   same contents, for a small sounding-like, surface-like and grid-like file.     *)
EXTENDS DMLayout, Json, IOUtils
CONSTANTS MAXMOVES
VARIABLES ph, moves
vars == <<ph, moves>>

R(r, c, p, v) == [r |-> r, c |-> c, p |-> p, hdr |-> <<v>>, data |-> <<v, 2 * v, -v>>, tx |-> <<0, 0, 0>>]
Desc ==
  [ftype |-> 1, src |-> 2,
   fh |-> << [name |-> <<78,65,86,66>>, typ |-> 1, w |-> <<7, 8>>, tx |-> <<0, 0>>] >>,
   rkeys |-> << <<68,65,84,69>>, <<84,73,77,69>> >>, ckeys |-> << <<83,84,73,68>>, <<83,84,78,77>> >>,
   rows |-> << [used |-> 1, w |-> <<240101, 1200>>, tx |-> <<0, 0>>], [used |-> 1, w |-> <<240102, 0>>, tx |-> <<0, 0>>] >>,
   cols |-> << [used |-> 1, w |-> <<11, 12>>, tx |-> <<1, 0>>], [used |-> 1, w |-> <<13, 14>>, tx |-> <<1, 0>>] >>,
   parts |-> << [name |-> <<65>>, hdr |-> 1, typ |-> 1, params |-> << [name |-> <<80>>, scale |-> 0, offset |-> 0, bits |-> 0] >>],
                [name |-> <<66>>, hdr |-> 1, typ |-> 1, params |-> << [name |-> <<81>>, scale |-> 0, offset |-> 0, bits |-> 0],
                                                                     [name |-> <<82>>, scale |-> 1, offset |-> 5, bits |-> 7] >>] >>,
   recs |-> << R(1, 1, 1, 100), R(1, 2, 1, 200), R(1, 2, 2, 250), R(2, 1, 2, 300), R(2, 2, 1, 400) >>]

Init == ph = CanonPh(Desc) /\ moves = 0
SwapAt(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Ins(s, i) == SubSeq(s, 1, i) \o <<0>> \o SubSeq(s, i + 1, Len(s))
Areas8 == SeqToSet(CanonOrder)
Step ==
  \/ \E i \in 1..7 : ph' = [ph EXCEPT !.order = SwapAt(@, i)]
  \/ \E n \in Areas8 : \E g \in {3} : ph.gap[n] = 0 /\ ph' = [ph EXCEPT !.gap[n] = g]
  \/ \E n \in Areas8 : ph.align[n] # 1 /\ ph' = [ph EXCEPT !.align[n] = 1]
  \/ ph.ralign # 1 /\ ph' = [ph EXCEPT !.ralign = 1]
  \/ ph.rgap = 0 /\ ph' = [ph EXCEPT !.rgap = 2]
  \/ ph.fill = 0 /\ \E v \in {9999, -1} : ph' = [ph EXCEPT !.fill = v]
  \/ ph.junk = 0 /\ ph' = [ph EXCEPT !.junk = 1]
  \/ ph.pad = 1 /\ ph' = [ph EXCEPT !.pad = 0]
  \/ \E i \in 0..Len(ph.rows) : Len(ph.rows) < 4 /\ ph' = [ph EXCEPT !.rows = Ins(@, i)]
  \/ \E i \in 0..Len(ph.cols) : Len(ph.cols) < 4 /\ ph' = [ph EXCEPT !.cols = Ins(@, i)]
  \/ \E i \in 1..4 : ph' = [ph EXCEPT !.rperm = SwapAt(@, i)]
Next == moves < MAXMOVES /\ Step /\ moves' = moves + 1
View == ph

File == Encode(Expand(Desc, ph), LayOf(ph)).w
Canon0 == LogicalOf(Encode(Expand(Desc, CanonPh(Desc)), LayOf(CanonPh(Desc))).w)
Independent == Decodable(File) /\ LogicalOf(File) = Canon0
Faithful == LET C == Canon0 IN
  /\ C.recs = [i \in 1..Len(Desc.recs) |-> LET x == Desc.recs[i] IN
                 [r |-> x.r, c |-> x.c, p |-> x.p, hdr |-> x.hdr, data |-> x.data]]
  /\ C.rows = [i \in 1..2 |-> Desc.rows[i].w] /\ C.cols = [i \in 1..2 |-> Desc.cols[i].w]
  /\ C.parts = Desc.parts
Export == (moves = MAXMOVES) => Serialize(ToJson(ph) \o "\n", IOEnv.OUT,
   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
