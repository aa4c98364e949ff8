-------------------------------- MODULE MCMeta --------------------------------
(* In every layout within MAXMOVES moves of the canonical one the management part
   of a file reads as described (pointers apart), no such file is rejected, and
   every file whose header text or block sizes are changed is.                   *)
EXTENDS MCLayout, DMMeta
Block(n, k) == [i \in 1..n |-> IF i = 1 THEN TWO ELSE IF i = 2 THEN k ELSE IF k = 7 THEN 700 + i ELSE 900 + i]
MetaDesc ==
  [fh |-> << [name |-> <<78,65,86,66>>, typ |-> 1, w |-> Block(NAVBSZ, TextWord(<<67,69,68>>)), tx |-> [i \in 1..NAVBSZ |-> 0]],
             [name |-> <<65,78,76,66>>, typ |-> 2, w |-> Block(ANLBSZ, 7), tx |-> [i \in 1..ANLBSZ |-> 0]],
             [name |-> <<88,32,32,32>>, typ |-> 3, w |-> <<5>>, tx |-> <<0>>] >>,
   ver |-> 4, mach |-> 2, missi |-> -77, missf |-> 55, src |-> 103, dmw |-> <<9, 8, 7, 6, 5, 4, 3>>,
   ftype |-> 3, rkeys |-> << <<68,65>>, <<84,73,77,69>> >>, ckeys |-> << <<83,84,73,68>>, <<83>> >>,
   rows |-> << [used |-> 1, w |-> <<240101, 1200>>, tx |-> <<0, 0>>], [used |-> 1, w |-> <<240102, 0>>, tx |-> <<0, 0>>] >>,
   cols |-> << [used |-> 1, w |-> <<11, 12>>, tx |-> <<1, 0>>], [used |-> 1, w |-> <<13, 14>>, tx |-> <<1, 0>>] >>,
   parts |-> << [name |-> <<65>>, hdr |-> 1, typ |-> 1, params |-> << [name |-> <<80>>, scale |-> 0, offset |-> 0, bits |-> 0] >>],
                [name |-> <<66>>, hdr |-> 1, typ |-> 4, params |-> << [name |-> <<81>>, scale |-> -2, offset |-> 3, bits |-> 9],
                                                                     [name |-> <<82>>, scale |-> 1, offset |-> 5, bits |-> 7] >>] >>,
   recs |-> << R(1, 1, 1, 100), R(1, 2, 1, 200), R(1, 2, 2, 250), R(2, 1, 2, 300), R(2, 2, 1, 400) >>]
Pointers == {"file_keys_ptr", "row_keys_ptr", "row_headers_ptr", "column_keys_ptr", "column_headers_ptr", "parts_ptr",
             "data_mgmt_ptr", "data_block_ptr", "rows", "columns", "next_free_word"}
At(view, n) == view[SelectInSeq(view, LAMBDA x : x.n = n)].v
AsDescribed ==
  \E m \in {Meta(File)} : \E d \in {Desc} :
  /\ \A n \in {"version", "file_headers", "row_keys", "column_keys", "parts", "data_mgmt_length", "file_type",
               "data_source", "machine_type", "missing_int", "missing_float"} :
       At(m.label, n) = << CASE n = "version" -> 4 [] n = "file_headers" -> 3 [] n = "row_keys" -> 2 [] n = "column_keys" -> 2
          [] n = "parts" -> 2 [] n = "data_mgmt_length" -> MBLK [] n = "file_type" -> 3 [] n = "data_source" -> 103
          [] n = "machine_type" -> 2 [] n = "missing_int" -> -77 [] n = "missing_float" -> 55 >>
  /\ At(m.label, "rows") = <<Len(ph.rows)>> /\ At(m.label, "columns") = <<Len(ph.cols)>>
  /\ m.fkeys = [i \in 1..3 |-> [name |-> d.fh[i].name, len |-> Len(d.fh[i].w), typ |-> d.fh[i].typ]]
  /\ At(m.nav, "grid_definition_type") = <<TWO>> /\ At(m.nav, "projection") = <<67, 69, 68>>
  /\ Len(m.nav) = 13 /\ \A i \in 3..13 : m.nav[i].v = <<d.fh[1].w[i]>>
  /\ Len(m.anl) = 18 /\ \A i \in 1..18 : m.anl[i].v = <<d.fh[2].w[i]>>
  /\ At(m.dm, "max_free_pairs") = <<9>> /\ At(m.dm, "actual_free_pairs") = <<8>> /\ At(m.dm, "last_word") = <<7>>
  /\ FreeWords(File) = <<6, 5, 4, 3>>
  /\ m.rk = Desc.rkeys /\ m.ck = Desc.ckeys
  /\ m.params = [i \in 1..2 |-> d.parts[i].params]
  /\ m.parts = [i \in 1..2 |-> [name |-> d.parts[i].name, hdr |-> 1, typ |-> d.parts[i].typ, cnt |-> Len(d.parts[i].params)]]
OnlyGood ==
  /\ ~Rejected(File)
  /\ \A i \in 1..7 : Rejected([File EXCEPT ![i] = @ + 1])
  /\ Rejected([File EXCEPT ![Fh(File).nav] = @ + 1]) /\ Rejected([File EXCEPT ![AnlAt(File)] = @ - 1])
  /\ \A n \in 0..30 : Rejected(SubSeq(File, 1, n))
=============================================================================
