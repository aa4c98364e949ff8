--------------------------------- MODULE DM ---------------------------------
(* The GEMPAK data management (DM) file format: label, keys, headers, parts,
   data pointer table and data records, all in 4-byte words counted from 1.

   A file is a sequence of words.  A *description* d is the logical contents:
     d.ftype, d.src      file type and data source
     d.fh                file headers  <<[name, typ, w, tx]>>   (w words, tx text flags)
     d.rkeys, d.ckeys    key names (text)
     d.rows, d.cols      header slots: [used |-> 0/1, w |-> words, tx |-> flags]
     d.parts             [name, hdr, typ, params : <<[name, scale, offset, bits]>>]
     d.recs              data records [r, c, p, hdr, data, tx]
   Encode(d, lay) lays it out; Decode(f) is its inverse on well-formed files. *)
EXTENDS Words
CONSTANT MBLK

HEADTEXT == <<71,69,77,80,65,75,32,68,65,84,65,32,77,65,78,65,71,69,77,69,78,84,32,70,73,76,69,32>>
USED == 9999
UNUSED == -9999
MISSI == -9999
MISSF == -971228160               \* bits of -9999.0
MACHINE == 11
LABLEN == 32

AlignUp(w, a) == IF (w - 1) % a = 0 THEN w ELSE ((w - 1) \div a + 1) * a + 1

Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Const(n, v) == [i \in 1..n |-> v]

(* ----------------------------- encoding ------------------------------------ *)
\* an area is [n |-> name, w |-> words, tx |-> text flags]
NParam(d) == Sum([i \in 1..Len(d.parts) |-> Len(d.parts[i].params)])
Areas(d) ==
  LET slots(ss, nk) ==
        [w  |-> Concat([i \in 1..Len(ss) |->
                  IF ss[i].used = 1 THEN <<USED>> \o ss[i].w
                  ELSE <<UNUSED>> \o (IF ss[i].w = <<>> THEN Const(nk, UNUSED) ELSE ss[i].w)]),
         tx |-> Concat([i \in 1..Len(ss) |->
                  IF ss[i].used = 1 THEN <<0>> \o ss[i].tx ELSE Const(nk + 1, 0)])]
      rs == slots(d.rows, Len(d.rkeys))
      cs == slots(d.cols, Len(d.ckeys))
      pp == [i \in 1..Len(d.parts) |-> d.parts[i].params]
      allp == Concat(pp)
      np == Len(d.parts)
  IN [ rk |-> [w |-> [i \in 1..Len(d.rkeys) |-> TextWord(d.rkeys[i])], tx |-> Const(Len(d.rkeys), 1)],
       ck |-> [w |-> [i \in 1..Len(d.ckeys) |-> TextWord(d.ckeys[i])], tx |-> Const(Len(d.ckeys), 1)],
       fh |-> [w |-> [i \in 1..Len(d.fh) |-> TextWord(d.fh[i].name)]
                     \o [i \in 1..Len(d.fh) |-> Len(d.fh[i].w)]
                     \o [i \in 1..Len(d.fh) |-> d.fh[i].typ]
                     \o Concat([i \in 1..Len(d.fh) |-> <<Len(d.fh[i].w)>> \o d.fh[i].w]),
               tx |-> Const(Len(d.fh), 1) \o Const(2 * Len(d.fh), 0)
                     \o Concat([i \in 1..Len(d.fh) |-> <<0>> \o d.fh[i].tx])],
       rh |-> rs, ch |-> cs,
       pt |-> [w |-> [i \in 1..np |-> TextWord(d.parts[i].name)]
                     \o [i \in 1..np |-> d.parts[i].hdr]
                     \o [i \in 1..np |-> d.parts[i].typ]
                     \o [i \in 1..np |-> Len(d.parts[i].params)]
                     \o [i \in 1..Len(allp) |-> TextWord(allp[i].name)]
                     \o [i \in 1..Len(allp) |-> allp[i].scale]
                     \o [i \in 1..Len(allp) |-> allp[i].offset]
                     \o [i \in 1..Len(allp) |-> allp[i].bits],
               tx |-> Const(np, 1) \o Const(3 * np, 0) \o Const(Len(allp), 1) \o Const(3 * Len(allp), 0)] ]

ALen(d, a, n) ==
  IF n = "dm" THEN MBLK
  ELSE IF n = "db" THEN Len(d.rows) * Len(d.cols) * Len(d.parts)
  ELSE Len(a[n].w)

CanonOrder == <<"dm", "rk", "ck", "fh", "rh", "ch", "pt", "db">>
\* lay: order (permutation of CanonOrder), gap[n], align[n], rgap (words between records),
\*      fill (word put into gaps), pad (1: pad the end to a block)
CanonLay == [order |-> CanonOrder,
             gap |-> [n \in SeqToSet(CanonOrder) |-> 0],
             align |-> [n \in SeqToSet(CanonOrder) |->
                          IF n \in {"dm", "rh", "pt", "db"} THEN MBLK ELSE 1],
             ralign |-> MBLK, rgap |-> 0, fill |-> 0, pad |-> 1]

Starts(d, a, lay) ==     \* function area name -> start word, and the end
  FoldLeft(LAMBDA acc, n :
      LET s == AlignUp(acc.e + lay.gap[n], lay.align[n])
      IN [e |-> s + ALen(d, a, n), s |-> [acc.s EXCEPT ![n] = s]],
    [e |-> LABLEN + 1, s |-> [n \in SeqToSet(CanonOrder) |-> 0]], lay.order)

RecStarts(d, lay, from) ==
  LET first == AlignUp(from, lay.ralign)
      len(i) == 1 + Len(d.recs[i].hdr) + Len(d.recs[i].data)
  IN FoldLeft(LAMBDA acc, i : [e |-> acc.e + len(i) + lay.rgap, s |-> Append(acc.s, acc.e)],
              [e |-> first, s |-> <<>>], [i \in 1..Len(d.recs) |-> i])

Encode(d, lay) ==
  LET a  == Areas(d)
      st == Starts(d, a, lay)
      S  == st.s
      rs == RecStarts(d, lay, st.e)
      nr == Len(d.rows) nc == Len(d.cols) np == Len(d.parts)
      Opt(n, v) == IF n \in DOMAIN d THEN d[n] ELSE v      \* label fields with usual values
      label == TextWords(HEADTEXT, 7) \o
        <<Opt("ver", 1), Len(d.fh), S["fh"], nr, Len(d.rkeys), S["rk"], S["rh"],
          nc, Len(d.ckeys), S["ck"], S["ch"], np, S["pt"], S["dm"], MBLK, S["db"],
          d.ftype, d.src, Opt("mach", MACHINE), Opt("missi", MISSI), 0, 0, 0, Opt("missf", MISSF)>>
      \* \* label has 7 + 24 = 31 words; one spare
      ptr(k) ==   \* k = 0-based cell index
        LET m == SelectInSeq(d.recs, LAMBDA x :
                   ((x.r - 1) * nc + (x.c - 1)) * np + (x.p - 1) = k)
        IN IF m = 0 THEN 0 ELSE rs.s[m]
      dm == <<rs.e>> \o Opt("dmw", <<62, 0, 0>> \o Const(MBLK - 4, 0))
      chunk(n) == IF n = "dm" THEN [w |-> dm, tx |-> Const(MBLK, 0)]
                  ELSE IF n = "db" THEN LET L == ALen(d, a, "db")
                       IN [w |-> [i \in 1..L |-> ptr(i - 1)], tx |-> Const(L, 0)]
                  ELSE a[n]
      put(acc, s, c) ==
        LET pad == s - 1 - Len(acc.w)
        IN [w |-> acc.w \o Const(pad, lay.fill) \o c.w,
            tx |-> acc.tx \o Const(pad, 0) \o c.tx]
      f0 == [w |-> label, tx |-> Const(7, 1) \o Const(24, 0)]
      f1 == FoldLeft(LAMBDA acc, n : IF ALen(d, a, n) = 0 THEN acc ELSE put(acc, S[n], chunk(n)),
                     f0, lay.order)
      f2 == FoldLeft(LAMBDA acc, i :
                LET x == d.recs[i] IN
                put(acc, rs.s[i],
                    [w |-> <<Len(x.hdr) + Len(x.data)>> \o x.hdr \o x.data,
                     tx |-> Const(1 + Len(x.hdr), 0) \o x.tx]),
              f1, [i \in 1..Len(d.recs) |-> i])
  IN IF lay.pad = 1 THEN put(f2, AlignUp(Len(f2.w) + 1, MBLK), [w |-> <<>>, tx |-> <<>>]) ELSE f2

(* ----------------------------- decoding ------------------------------------ *)
Label(f) == [ version |-> f[8], nfh |-> f[9], fk |-> f[10], rows |-> f[11], rkeys |-> f[12],
              rk |-> f[13], rh |-> f[14], cols |-> f[15], ckeys |-> f[16], ck |-> f[17],
              ch |-> f[18], parts |-> f[19], pt |-> f[20], dm |-> f[21], dmlen |-> f[22],
              db |-> f[23], ftype |-> f[24], src |-> f[25], machine |-> f[26],
              missi |-> f[27], missf |-> f[31] ]

Sub(f, s, n) == SubSeq(f, s, s + n - 1)
\* bounds guard: everything the decoder touches must lie inside the file
InFile(f, s, n) == s >= 1 /\ n >= 0 /\ s + n - 1 <= Len(f)

DecParts(f, L) ==
  LET np == L.parts
      cnt(i) == f[L.pt + 3 * np + i - 1]
      off(i) == Sum([k \in 1..(i - 1) |-> cnt(k)])
      tot == off(np + 1)
      base == L.pt + 4 * np
  IN [i \in 1..np |->
       [name |-> Strip(WordText(f[L.pt + i - 1])), hdr |-> f[L.pt + np + i - 1],
        typ |-> f[L.pt + 2 * np + i - 1],
        params |-> [j \in 1..cnt(i) |->
           [name |-> Strip(WordText(f[base + off(i) + j - 1])),
            scale |-> f[base + tot + off(i) + j - 1],
            offset |-> f[base + 2 * tot + off(i) + j - 1],
            bits |-> f[base + 3 * tot + off(i) + j - 1]]]]]

DecSlots(f, start, n, nk) ==
  [i \in 1..n |-> LET s == start + (i - 1) * (nk + 1)
                  IN [used |-> IF f[s] = USED THEN 1 ELSE 0, w |-> Sub(f, s + 1, nk)]]
DecKeys(f, start, n) == [i \in 1..n |-> Strip(WordText(f[start + i - 1]))]

DecFH(f, L) ==    \* file headers
  LET len(i) == f[L.fk + L.nfh + i - 1]
      off(i) == Sum([k \in 1..(i - 1) |-> len(k) + 1])
  IN [i \in 1..L.nfh |->
       [name |-> Strip(WordText(f[L.fk + i - 1])), typ |-> f[L.fk + 2 * L.nfh + i - 1],
        plen |-> f[L.fk + 3 * L.nfh + off(i)],
        w |-> Sub(f, L.fk + 3 * L.nfh + off(i) + 1, len(i))]]

\* all data records of used cells, in cell order
DecRecs(f, L, parts, rows, cols) ==
  LET np == L.parts nc == L.cols
      ptr(k) == f[L.db + k]
      k2r(k) == k \div (nc * np) + 1
      k2c(k) == ((k \div np) % nc) + 1
      k2p(k) == (k % np) + 1
      cells == SelectSeq([k \in 1..(L.rows * nc * np) |-> k - 1],
                 LAMBDA k : ptr(k) # 0 /\ rows[k2r(k)].used = 1 /\ cols[k2c(k)].used = 1)
  IN [i \in 1..Len(cells) |->
       LET k == cells[i]  s == ptr(k)  p == k2p(k)  h == parts[p].hdr  n == f[s]
       IN [r |-> k2r(k), c |-> k2c(k), p |-> p, start |-> s, len |-> n,
           hdr |-> Sub(f, s + 1, h), data |-> Sub(f, s + 1 + h, n - h)]]

Decode(f) ==
  LET L == Label(f)
      parts == DecParts(f, L)
      rows == DecSlots(f, L.rh, L.rows, L.rkeys)
      cols == DecSlots(f, L.ch, L.cols, L.ckeys)
  IN [L |-> L, parts |-> parts, rows |-> rows, cols |-> cols,
      rkeys |-> DecKeys(f, L.rk, L.rkeys), ckeys |-> DecKeys(f, L.ck, L.ckeys),
      fh |-> DecFH(f, L),
      recs |-> DecRecs(f, L, parts, rows, cols)]

(* ------------------------- structural validity ------------------------------ *)
\* Everything needed so that Decode cannot leave the file.
Decodable(f) ==
  /\ Len(f) >= LABLEN
  /\ LET L == Label(f) IN
     /\ \A n \in {L.nfh, L.rows, L.rkeys, L.cols, L.ckeys, L.parts} : n >= 0 /\ n <= 40000
     /\ InFile(f, L.rk, L.rkeys) /\ InFile(f, L.ck, L.ckeys)
     /\ InFile(f, L.rh, L.rows * (L.rkeys + 1)) /\ InFile(f, L.ch, L.cols * (L.ckeys + 1))
     /\ InFile(f, L.dm, L.dmlen)
     /\ InFile(f, L.db, L.rows * L.cols * L.parts)
     /\ InFile(f, L.pt, 4 * L.parts)
     /\ \A i \in 1..L.parts : f[L.pt + 3 * L.parts + i - 1] \in 0..100
                              /\ f[L.pt + L.parts + i - 1] \in 0..10
     /\ InFile(f, L.pt, 4 * L.parts + 4 * Sum([i \in 1..L.parts |-> f[L.pt + 3 * L.parts + i - 1]]))
     /\ L.nfh > 0 => /\ InFile(f, L.fk, 3 * L.nfh)
                     /\ \A i \in 1..L.nfh : f[L.fk + L.nfh + i - 1] \in 0..4096
                     /\ InFile(f, L.fk, 3 * L.nfh + Sum([i \in 1..L.nfh |-> f[L.fk + L.nfh + i - 1] + 1]))
     /\ \A k \in 0..(L.rows * L.cols * L.parts - 1) :
          LET s == f[L.db + k]
              h == f[L.pt + L.parts + (k % L.parts)]
          IN s # 0 => /\ InFile(f, s, 1) /\ f[s] >= h /\ f[s] < 1000000
                      /\ InFile(f, s, 1 + f[s])

\* intervals [s, n) of all areas and records
Intervals(f, D) ==
  LET L == D.L
      fhl == 3 * L.nfh + Sum([i \in 1..L.nfh |-> Len(D.fh[i].w) + 1])
      np == Sum([i \in 1..L.parts |-> Len(D.parts[i].params)])
  IN << <<1, LABLEN - 1>>, <<L.dm, L.dmlen>>, <<L.rk, L.rkeys>>, <<L.ck, L.ckeys>>,
        <<L.fk, fhl>>, <<L.rh, L.rows * (L.rkeys + 1)>>, <<L.ch, L.cols * (L.ckeys + 1)>>,
        <<L.pt, 4 * L.parts + 4 * np>>, <<L.db, L.rows * L.cols * L.parts>> >>
     \o [i \in 1..Len(D.recs) |-> <<D.recs[i].start, D.recs[i].len + 1>>]

Disjoint(iv) == \A i \in 1..Len(iv) : \A j \in 1..(i - 1) :
   iv[i][2] = 0 \/ iv[j][2] = 0 \/ iv[i][1] + iv[i][2] <= iv[j][1] \/ iv[j][1] + iv[j][2] <= iv[i][1]

OnBlock(p) == (p - 1) % MBLK = 0

\* named structural clauses of a file as written by a fresh writer (used by G05)
WellFormed(f, nbytes) ==
  IF ~ Decodable(f) THEN <<"decodable">>
  ELSE
  LET D == Decode(f)  L == D.L
      recEnd == FoldLeft(LAMBDA a, x : Max2(a, x.start + x.len), 0, D.recs)
      c(b, n) == IF b THEN <<>> ELSE <<n>>
  IN c(nbytes = 4 * Len(f) /\ Len(f) % MBLK = 0, "whole-blocks")
     \o c(WordsText(SubSeq(f, 1, 7)) = HEADTEXT /\ L.version = 1 /\ L.machine = MACHINE
          /\ L.missi = MISSI /\ L.missf = MISSF /\ L.dmlen = MBLK, "label")
     \o c(OnBlock(L.dm) /\ OnBlock(L.rh) /\ OnBlock(L.pt) /\ OnBlock(L.db), "alignment")
     \o c(Disjoint(Intervals(f, D)), "overlap")
     \o c(\A i \in 1..Len(D.rows) : D.rows[i].used = 1, "row-flag")
     \o c(\A i \in 1..Len(D.cols) : D.cols[i].used = 1, "column-flag")
     \o c(\A i \in 1..Len(D.fh) : D.fh[i].plen = Len(D.fh[i].w), "file-header-length")
     \o c(f[L.dm] > recEnd /\ f[L.dm] <= Len(f) + 1, "next-free-word")
     \o c(\A i \in 1..Len(D.parts) : \A j \in 1..Len(D.parts[i].params) :
            D.parts[i].params[j].scale = 0 /\ D.parts[i].params[j].offset = 0
            /\ D.parts[i].params[j].bits = 0, "part-tables")
     \o c(f[L.dm + 1] >= 0 /\ f[L.dm + 2] = 0, "free-pairs")
=============================================================================
