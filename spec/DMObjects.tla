------------------------------- MODULE DMObjects -------------------------------
(* The form of what a reader returns: the fields of its listings, the dimensions,
   coordinates, variables and attributes of grids and soundings (with the coded
   reports a sounding carries as text), and the properties and values of surface
   reports.  What the values are is the matter of DMReader.                      *)
EXTENDS DMReader

ListFields(kind) ==
  CASE kind = "grid" -> << "GRIDNO", "TYPE", "DATTIM1", "DATTIM2", "PARM", "LEVEL1", "LEVEL2", "COORD" >>
    [] kind = "sounding" -> << "DTNO", "SNDNO", "DATTIM", "ID", "NUMBER", "LAT", "LON", "ELEV", "STATE", "COUNTRY" >>
    [] OTHER -> << "ROW", "COL", "DATTIM", "ID", "NUMBER", "LAT", "LON", "ELEV", "STATE", "COUNTRY" >>

N_TIME == <<116,105,109,101>>  N_Y == <<121>>  N_X == <<120>>
N_LAT == <<108,97,116>>  N_LON == <<108,111,110>>
N_PRES == <<112,114,101,115>>  N_HGHT == <<104,103,104,116>>

(* ---- grids: one time, one level, rows and columns; places of the points ---------- *)
GridForm(D, c, nx, ny) ==
  LET vc == Low(VcText(GKey(D, c).vc))
      dims == <<N_TIME, vc, N_Y, N_X>> IN
  [dims |-> dims, shape |-> <<1, 1, ny, nx>>, dtype |-> "float32",
   coords |-> [i \in {N_TIME, vc, N_Y, N_X, N_LAT, N_LON} |->
                 IF i \in {N_LAT, N_LON} THEN <<N_Y, N_X>> ELSE <<i>>],
   gtype |-> TYNAMES[GKey(D, c).t1.ty + 1]]
CoordsAre(X, cs) ==           \* cs: sequence of [n, dims]
  /\ {cs[i].n : i \in 1..Len(cs)} = DOMAIN X /\ Len(cs) = Cardinality(DOMAIN X)
  /\ \A i \in 1..Len(cs) : cs[i].dims = X[cs[i].n]
GridFormOK(X, o) ==
  /\ o.dims = X.dims /\ o.shape = X.shape /\ o.dtype = X.dtype
  /\ CoordsAre(X.coords, o.coords) /\ o.gtype = X.gtype /\ o.cf = 1

(* ---- soundings -------------------------------------------------------------------- *)
TextParts == << <<84,88,84,65>>, <<84,88,84,66>>, <<84,88,84,67>>, <<84,88,80,66>> >>
SndAttrs == {"station_id", "station_number", "lat", "lon", "elevation", "state", "country"}
Merged(D) == \E i \in 1..Len(D.parts) : D.parts[i].name = <<83,78,68,84>>
\* the coded reports of a sounding: [n (lower case part name), v (text)]
Codes(D, q) ==
  LET ps == SelectSeq(PartsOf(D, q[1], q[2]), LAMBDA p : InKeys(TextParts, D.parts[p].name)) IN
  {[n |-> Low(D.parts[ps[i]].name), v |-> Entries(D, q[1], q[2], ps[i])[1].v] : i \in 1..Len(ps)}
UnmergedVars == {<<104,103,104,116>>, <<116,101,109,112>>, <<100,119,112,116>>, <<100,114,99,116>>, <<115,112,101,100>>}
SndForm(D, q) ==
  LET es == CellEntries(D, q)
      vi == LET i == SelectInSeq(es, LAMBDA e : e.n = S_PRES) IN
            IF i # 0 THEN i ELSE SelectInSeq(es, LAMBDA e : e.n = S_HGHT)
      vc == IF ~Merged(D) THEN N_PRES ELSE Low(es[vi].n)
  IN [k |-> CellKey(D, q), vc |-> vc,
      vars |-> IF ~Merged(D) THEN UnmergedVars ELSE {Low(es[i].n) : i \in {j \in 1..Len(es) : j # vi}},
      n |-> IF Merged(D) THEN Len(es[vi].v) ELSE 0,          \* (0: not judged here)
      first |-> IF Merged(D) /\ vc = N_PRES THEN << [ty |-> es[vi].ty, v |-> es[vi].v[1]] >> ELSE <<>>,
      codes |-> IF Merged(D) THEN {} ELSE Codes(D, q)]
SndFormOK(D, X, o) ==
  /\ o.dims = {N_TIME, X.vc} /\ o.nt = 1 /\ (X.n = 0 \/ o.n = X.n) /\ o.n > 0
  /\ CoordsAre([i \in {N_TIME, X.vc} |-> <<i>>], o.coords)
  /\ {o.vars[i].n : i \in 1..Len(o.vars)} = X.vars /\ Len(o.vars) = Cardinality(X.vars)
  /\ \A i \in 1..Len(o.vars) : o.vars[i].dims = <<N_TIME, X.vc>> /\ o.vars[i].dtype = "float32"
SndAttrsOK(D, X, o) ==
  /\ o.attrs = SndAttrs \cup (IF X.vc = N_PRES THEN {"station_pressure"} ELSE {})
                        \cup (IF X.codes = {} THEN {} ELSE {"wmo_codes"})
  /\ StnExact(X.k, o.stn)
  /\ X.first # <<>> => ValOK(X.first[1].ty, X.first[1].v, o.spb, o.spq, D.L.missf)
SndCodesOK(X, o) == Len(o.codes) = Cardinality(X.codes) /\ {o.codes[i] : i \in 1..Len(o.codes)} = X.codes

(* ---- surface reports: plain data ----------------------------------------------------- *)
SfcProps == {"date_time", "station_id", "station_number", "longitude", "latitude", "elevation", "state",
             "country", "priority"}
PropType(n) == CASE n = "date_time" -> {"datetime"}
                 [] n \in {"station_id", "state", "country"} -> {"str"}
                 [] n \in {"station_number", "priority"} -> {"int"}
                 [] OTHER -> {"int", "float"}
SfcFormOK(X, o) ==           \* X: a report of SfcReports
  /\ o.keys = {"properties", "values"} /\ DOMAIN o.props = SfcProps
  /\ \A n \in SfcProps : o.props[n] \in PropType(n)
  /\ Len(o.vals) = Len(X.es)
  /\ \A i \in 1..Len(X.es) : \E j \in 1..Len(o.vals) :
       o.vals[j].n = Low(X.es[i].n) /\ o.vals[j].ty \in (IF X.es[i].ty = "t" THEN {"str"} ELSE {"int", "float"})

(* ---- all that a file returns when everything is asked for ----------------------------- *)
Forms(e) ==
  LET D == Decode(e.w) IN
  IF e.kind = "grid" THEN
    LET cs == SelectSeq(GridCols(D), LAMBDA c : RecIdx(D, 1, c, 1) # 0) IN
    [kind |-> "grid", D |-> D, n |-> Len(GridCols(D)), xs |-> [i \in 1..Len(cs) |-> GridForm(D, cs[i], e.nx, e.ny)]]
  ELSE LET cells == DataCells(D) IN
    [kind |-> e.kind, D |-> D, n |-> Len(cells),
     xs |-> IF e.kind = "sounding" THEN [i \in 1..Len(cells) |-> SndForm(D, cells[i])]
            ELSE Concat([i \in 1..Len(cells) |-> SfcReports(D, cells[i])])]
=============================================================================
