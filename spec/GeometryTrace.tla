----------------------------- MODULE GeometryTrace -----------------------------
(* Validates recorded grid geometries.                                                          *)
(*  stored: a caller's grid and what the written file's navigation block holds                  *)
(*  grid:   what a reader says about a file's grid: size, coordinate axes                       *)
(*  point:  a point of the grid: where it belongs and where the reader puts it                  *)
(*  order:  values of a grid point as a reader returns it                                       *)
EXTENDS Geometry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
Close(a, b, tol) == Abs(a - b) <= tol
LonClose(a, b, tol) == LonDist(a, b) <= tol
\* the point spacing is twice the root mean square of the differences in latitude and longitude
\* over the cell in the middle: m = <<lat, lon, lat, lon>> of its corners; hundredths of degrees
\* (about a pole every longitude is right)
SpacingOK(dn, m) ==
    LET dx == LonDist(m[2], m[4]) \div 10  dy == Abs(m[1] - m[3]) \div 10 IN
    \/ Abs(m[1]) > 89900 \/ Abs(m[3]) > 89900 \/ dx > 17990
    \/ /\ dn \in 0..30000
       /\ Abs((dn * dn) - 2 * ((dx * dx) + (dy * dy))) <= 8 * (dn + dx + dy) + 50
\* angles as longitudes may be given a turn apart
StoredClause(e) ==
    LET s == Stored(e.c)  n == e.nav IN
    IF e.out # "ok" THEN "G21:write-error"
    ELSE IF n.kind # s.kind THEN "G21:stored-projection"
    \* (a rotation about the pole may be left out)
    ELSE IF ~Close(n.a1, s.a1, 1) \/ ~LonClose(n.a2, s.a2, 1)
            \/ ~(Close(n.a3, s.a3, 1) \/ (n.kind = "STR" /\ Close(n.a3, e.c.rot, 1))) THEN "G21:stored-angles"
    ELSE IF n.kx # e.nx \/ n.ky # e.ny \/ n.left # 1 \/ n.bottom # 1 THEN "G21:stored-size"
    ELSE IF ~Near(n.lllat, n.lllon, e.lllat, e.lllon, 2) \/ ~Near(n.urlat, n.urlon, e.urlat, e.urlon, 2)
         THEN "G21:stored-corners"
    ELSE IF e.anl.gtype # 2 \/ e.anl.size # 128 \/ e.anl.type # 2 \/ e.anl.ext # <<0, 0, 0, 0>>
            \/ \E k \in 1..3 : LET a == e.anl.areas[k] IN
                  ~Near(a[1], a[2], e.lllat, e.lllon, 2) \/ ~Near(a[3], a[4], e.urlat, e.urlon, 2)
         THEN "G21:stored-analysis"
    ELSE IF ~SpacingOK(e.anl.dn, e.mid) THEN "G21:stored-spacing"
    ELSE ""
GridClause(e) ==
    IF e.out # "ok" THEN "G21:read-error"
    ELSE IF e.kx # e.nx \/ e.ky # e.ny \/ Len(e.x) # e.nx \/ Len(e.y) # e.ny THEN "G21:read-size"
    ELSE IF e.latshape # <<e.ny, e.nx>> \/ e.lonshape # <<e.ny, e.nx>> THEN "G21:read-shape"
    ELSE IF \E i \in DOMAIN e.x : ~Close(e.x[i], On(e.x[1], e.x[e.nx], i, e.nx), 12) THEN "G21:x-spacing"
    ELSE IF \E i \in DOMAIN e.y : ~Close(e.y[i], On(e.y[1], e.y[e.ny], i, e.ny), 12) THEN "G21:y-spacing"
    ELSE IF e.kind \in Cylindrical /\ e.nx > 1 /\ e.x[e.nx] <= e.x[1] THEN "G21:x-order"
    ELSE ""
PointClause(e) ==
    IF ~Near(e.lat, e.lon, e.gotlat, e.gotlon, 3) THEN "G21:point"
    ELSE IF e.arrlat # e.gotlat \/ e.arrlon # e.gotlon THEN "G21:array-coordinates"
    ELSE IF e.arrx # e.gotx \/ e.arry # e.goty THEN "G21:array-axes"
    ELSE IF e.val # e.want THEN "G21:order"
    \* projecting the point gives its coordinates (a turn apart on a cylinder), within 300 m
    ELSE IF Abs(e.gotlat) = 90 * Deg THEN ""      \* (rounded, it may lie outside)
    ELSE IF ~Close(e.goty, e.py, 300) THEN "G21:project-y"
    ELSE IF ~(Close(e.gotx, e.px, 300)
              \/ (e.kind \in Cylindrical /\ (Close(e.gotx, e.px + Circumference, 300)
                                             \/ Close(e.gotx, e.px - Circumference, 300)))) THEN "G21:project-x"
    ELSE ""
Clause(e) == CASE e.ev = "stored" -> StoredClause(e) [] e.ev = "grid" -> GridClause(e)
               [] e.ev = "point" -> PointClause(e)
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E c \in {Clause(e)} :
       bad' = IF c = "" THEN bad ELSE Append(bad, [at |-> l, clause |-> c])
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
