-------------------------------- MODULE DMMeta --------------------------------
(* What a reader reports of the management part of a DM file: label, file keys,
   navigation and analysis block, data management record, keys, parts and
   parameter tables - each field under its name with what its word holds - and
   which files it must not accept.                                             *)
EXTENDS DMLayout
CONSTANTS NAVBSZ, ANLBSZ        \* words in a navigation / analysis block

LabelNames == << "version", "file_headers", "file_keys_ptr", "rows", "row_keys", "row_keys_ptr",
  "row_headers_ptr", "columns", "column_keys", "column_keys_ptr", "column_headers_ptr", "parts",
  "parts_ptr", "data_mgmt_ptr", "data_mgmt_length", "data_block_ptr", "file_type", "data_source",
  "machine_type", "missing_int" >>                    \* from word 8 on
MissingFloatAt == 31
DataSources == (0..7) \cup {99, 100} \cup (102..105)
UnknownSource == 99

NavNames == << "grid_definition_type", "projection", "left_grid_number", "bottom_grid_number",
  "right_grid_number", "top_grid_number", "lower_left_lat", "lower_left_lon", "upper_right_lat",
  "upper_right_lon", "proj_angle1", "proj_angle2", "proj_angle3" >>
Corners == << "garea_llcr_lat", "garea_llcr_lon", "garea_urcr_lat", "garea_urcr_lon",
  "extarea_llcr_lat", "extarea_llcr_lon", "extarea_urcr_lat", "extarea_urcr_lon",
  "datarea_llcr_lat", "datarea_llcr_lon", "datarea_urcr_lat", "datarea_urcrn_lon" >>
\* "" is a word without a name
AnlNames(typ) ==
  CASE typ = 1 -> << "analysis_type", "delta_n", "delta_x", "delta_y", "" >> \o Corners
    [] typ = 2 -> << "analysis_type", "delta_n", "grid_ext_left", "grid_ext_down",
                     "grid_ext_right", "grid_ext_up" >> \o Corners
    [] OTHER -> <<>>
ONE == 1065353216   TWO == 1073741824                 \* bits of 1.0 and 2.0
AnlType(w) == IF w = ONE THEN 1 ELSE IF w = TWO THEN 2 ELSE 0
DmNames == << "next_free_word", "max_free_pairs", "actual_free_pairs", "last_word" >>

Named(names, val(_)) ==
  SelectSeq([i \in 1..Len(names) |-> [n |-> names[i], v |-> val(i)]], LAMBDA x : x.n # "")

LabelView(f) ==
  Named(LabelNames, LAMBDA i :
      IF LabelNames[i] = "data_source" THEN (IF f[i + 7] \in DataSources THEN <<f[i + 7]>> ELSE <<UnknownSource>>)
      ELSE <<f[i + 7]>>)
  \o << [n |-> "missing_float", v |-> <<f[MissingFloatAt]>>] >>

Fh(f) == LET L == Label(f) IN [names |-> L.fk, lens |-> L.fk + L.nfh, typs |-> L.fk + 2 * L.nfh, nav |-> L.fk + 3 * L.nfh]
AnlAt(f) == Fh(f).nav + f[Fh(f).nav] + 1
FileKeys(f) == [i \in 1..Label(f).nfh |->
  [name |-> WordText(f[Fh(f).names + i - 1]), len |-> f[Fh(f).lens + i - 1], typ |-> f[Fh(f).typs + i - 1]]]
NavView(f) ==
  IF Label(f).nfh = 0 THEN <<>>
  ELSE Named(NavNames, LAMBDA i : IF NavNames[i] = "projection" THEN SubSeq(WordText(f[Fh(f).nav + i]), 1, 3)
                                  ELSE <<f[Fh(f).nav + i]>>)
AnlView(f) ==
  IF Label(f).nfh = 0 THEN <<>>
  ELSE LET names == AnlNames(AnlType(f[AnlAt(f) + 1])) IN Named(names, LAMBDA i : <<f[AnlAt(f) + i]>>)
DmView(f) == LET s == Label(f).dm IN
  Named(DmNames, LAMBDA i : <<f[s + i - 1]>>)
FreeWords(f) == Sub(f, Label(f).dm + 4, MBLK - 4)     \* (a reader may keep the first of them only)

Meta(f) ==
  LET L == Label(f)
      D == [rkeys |-> DecKeys(f, L.rk, L.rkeys), ckeys |-> DecKeys(f, L.ck, L.ckeys), parts |-> DecParts(f, L)] IN
  [label |-> LabelView(f), fkeys |-> FileKeys(f), nav |-> NavView(f), anl |-> AnlView(f), dm |-> DmView(f),
   rk |-> D.rkeys, ck |-> D.ckeys,
   parts |-> [i \in 1..Len(D.parts) |-> LET p == D.parts[i] IN [name |-> p.name, hdr |-> p.hdr, typ |-> p.typ, cnt |-> Len(p.params)]],
   params |-> [i \in 1..Len(D.parts) |-> D.parts[i].params]]

(* --------------------------- what is not accepted ---------------------------- *)
HeadOK(f) == Len(f) >= 7 /\ WordsText(SubSeq(f, 1, 7)) = HEADTEXT
BlocksOK(f) == Label(f).nfh = 0 \/ (f[Fh(f).nav] = NAVBSZ /\ f[Fh(f).nav + NAVBSZ + 1] = ANLBSZ)
\* what is reported lies in the file (header slots beyond the end may count as unused)
Complete(f) ==
  /\ Len(f) >= MissingFloatAt
  /\ LET L == Label(f) IN
     /\ L.nfh > 0 => InFile(f, L.fk, 3 * L.nfh) /\ InFile(f, Fh(f).nav, 1)
                     /\ (f[Fh(f).nav] = NAVBSZ => InFile(f, Fh(f).nav, NAVBSZ + 2)
                         /\ (f[Fh(f).nav + NAVBSZ + 1] = ANLBSZ => InFile(f, Fh(f).nav + NAVBSZ + 2, ANLBSZ)))
     /\ InFile(f, L.dm, 4) /\ InFile(f, L.rk, L.rkeys) /\ InFile(f, L.ck, L.ckeys)
     /\ InFile(f, L.pt, 4 * L.parts)
     /\ InFile(f, L.pt, 4 * L.parts + 4 * Sum([i \in 1..L.parts |-> f[L.pt + 3 * L.parts + i - 1]]))
Rejected(f) == ~HeadOK(f) \/ ~Complete(f) \/ ~BlocksOK(f)
=============================================================================
