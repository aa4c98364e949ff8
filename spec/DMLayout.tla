------------------------------- MODULE DMLayout -------------------------------
(* Physical freedom of a DM file with given contents.  A physical choice ph is
     order   permutation of the areas          gap, align   per area
     ralign, rgap, fill                         record placement and gap contents
     rows, cols   0 = an unused header slot, i > 0 = the i-th logical row/column
                  (logical rows and columns keep their order)
     junk    1: unused slots hold stale key words and stale data records
     rperm   order in which the data records are stored
     pad     1: file padded to a block                                          *)
EXTENDS DM

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)

\* abstract record data -> words
RecData(x) ==
  IF x.k = "raw" THEN [w |-> x.w, tx |-> x.tx]
  ELSE IF x.k = "grid" THEN
    LET h == IF x.ty = 3 THEN <<3, x.nb, x.miss, x.n, x.nx, x.ref, x.scale, x.dmin>>
             ELSE <<x.ty, x.nb, x.miss, x.n, x.ref, x.scale>>
        w == h \o PackM(x.codes, x.nb)
    IN [w |-> w, tx |-> Const(Len(w), 0)]
  ELSE  \* packed levels
    LET w == Concat([i \in 1..Len(x.lv) |-> PackL(x.lv[i], x.bits)])
    IN [w |-> w, tx |-> Const(Len(w), 0)]
Concrete(d) ==
  [d EXCEPT !.recs = [i \in 1..Len(d.recs) |->
     LET x == d.recs[i]  y == RecData(x.data) IN
     [r |-> x.r, c |-> x.c, p |-> x.p, hdr |-> x.hdr, data |-> y.w, tx |-> y.tx]]]

SlotOf(sl, i) == SelectInSeq(sl, LAMBDA v : v = i)
Expand(d, ph) ==
  LET slots(ss, sl) ==
        [i \in 1..Len(sl) |->
           IF sl[i] # 0 THEN ss[sl[i]]
           ELSE [used |-> 0, w |-> IF ph.junk = 1 /\ Len(ss) > 0 THEN ss[1].w ELSE <<>>, tx |-> <<>>]]
      recs == [i \in 1..Len(d.recs) |->
                 [d.recs[i] EXCEPT !.r = SlotOf(ph.rows, @), !.c = SlotOf(ph.cols, @)]]
      ord == [i \in 1..Len(recs) |-> recs[ph.rperm[i]]]
      \* stale records of deleted slots
      dead == IF ph.junk = 0 \/ Len(recs) = 0 THEN <<>>
              ELSE LET dr == SelectSeq([i \in 1..Len(ph.rows) |-> i], LAMBDA i : ph.rows[i] = 0)
                       dc == SelectSeq([i \in 1..Len(ph.cols) |-> i], LAMBDA i : ph.cols[i] = 0)
                   IN [i \in 1..Len(dr) |-> [recs[1] EXCEPT !.r = dr[i]]]
                      \o [i \in 1..Len(dc) |-> [recs[1] EXCEPT !.c = dc[i]]]
  IN [d EXCEPT !.rows = slots(d.rows, ph.rows), !.cols = slots(d.cols, ph.cols), !.recs = ord \o dead]
LayOf(ph) == [order |-> ph.order, gap |-> ph.gap, align |-> ph.align, ralign |-> ph.ralign,
              rgap |-> ph.rgap, fill |-> ph.fill, pad |-> ph.pad]
CanonPh(d) ==
  [order |-> CanonOrder, gap |-> CanonLay.gap, align |-> CanonLay.align, ralign |-> MBLK, rgap |-> 0,
   fill |-> 0, pad |-> 1, junk |-> 0, rows |-> [i \in 1..Len(d.rows) |-> i],
   cols |-> [i \in 1..Len(d.cols) |-> i], rperm |-> [i \in 1..Len(d.recs) |-> i]]

\* the contents of a file: what does not depend on the layout, in file order
LogicalOf(f) ==
  LET D == Decode(f)
      rs == SelectSeq([i \in 1..Len(D.rows) |-> i], LAMBDA i : D.rows[i].used = 1)
      cs == SelectSeq([i \in 1..Len(D.cols) |-> i], LAMBDA i : D.cols[i].used = 1)
  IN [parts |-> D.parts, rkeys |-> D.rkeys, ckeys |-> D.ckeys, fh |-> D.fh,
      rows |-> [i \in 1..Len(rs) |-> D.rows[rs[i]].w], cols |-> [i \in 1..Len(cs) |-> D.cols[cs[i]].w],
      recs |-> [i \in 1..Len(D.recs) |->
        LET x == D.recs[i] IN [r |-> SlotOf(rs, x.r), c |-> SlotOf(cs, x.c), p |-> x.p, hdr |-> x.hdr, data |-> x.data]]]
=============================================================================
