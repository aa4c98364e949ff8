------------------------------- MODULE MCGeometry -------------------------------
(* Writing and reading a cylindrical grid in whole degrees: a caller's grid (columns going east,*)
(* rows going either way, longitudes in any turn) is stored as its corners, and read back from   *)
(* them with the definitions of Geometry.  Every point must be where the caller put it.          *)
EXTENDS Geometry
CONSTANTS LONS, STEPS, SIZES, CENTRES     \* (longitudes plus 180)
VARIABLES g, seen
vars == <<g, seen>>
None == [lon |-> 0, lat |-> 0, dlon |-> 0, dlat |-> 0, nx |-> 1, ny |-> 1, c |-> 0]
Init == g = None /\ seen = <<>>
Write == \E lon \in {k - 180 : k \in LONS}, lat \in {-40, 0}, dlon \in STEPS, dlat \in {-10, 10}, nx \in SIZES, ny \in SIZES, c \in {k - 180 : k \in CENTRES} :
    /\ dlon * (nx - 1) <= 360
    /\ g' = [lon |-> lon * Deg, lat |-> lat * Deg, dlon |-> dlon * Deg, dlat |-> dlat * Deg, nx |-> nx, ny |-> ny, c |-> c * Deg]
    /\ UNCHANGED seen
\* metres are degrees here: one turn is Turn
Project(lon) == LET w == Wrap(lon - g.c) IN w
Corners == [ll |-> <<g.lat, g.lon>>, ur |-> <<g.lat + (g.dlat * (g.ny - 1)), g.lon + (g.dlon * (g.nx - 1))>>]
EastEnd(a, b) == IF b <= a THEN b + Turn ELSE b
Read == /\ g # None /\ seen = <<>>
        /\ LET a == Project(Corners.ll[2])
               b == EastEnd(a, Project(Corners.ur[2]))
           IN seen' = [j \in 1..g.ny |-> [i \in 1..g.nx |->
                         <<On(Corners.ll[1], Corners.ur[1], j, g.ny), Wrap(On(a, b, i, g.nx) + g.c)>>]]
        /\ UNCHANGED g
Next == (g = None /\ Write) \/ Read
Located == seen # <<>> => \A j \in 1..g.ny, i \in 1..g.nx :
    /\ seen[j][i][1] = g.lat + (g.dlat * (j - 1))
    /\ LonDist(seen[j][i][2], g.lon + (g.dlon * (i - 1))) = 0
\* every projection is stored as the kind that means it
Callers == [family : {"merc", "eqc", "lcc", "stere", "aeqd", "ortho", "laea", "gnom"}, lat0 : {-90 * Deg, 0, 40 * Deg},
            lon0 : {-100 * Deg, 30 * Deg}, lat1 : {25 * Deg}, lat2 : {25 * Deg, 60 * Deg}, ts : {0}, two : {0, 1}, rot : {0}]
ASSUME \A c \in Callers : LET m == Meaning(Stored(c)) IN
    /\ m.proj = c.family /\ m.lon0 = c.lon0
    /\ c.family = "lcc" => m.lats = <<c.lat1, IF c.two = 1 THEN c.lat2 ELSE c.lat1>>
    /\ c.family \in {"stere", "aeqd", "ortho", "laea", "gnom"} => m.lats = <<c.lat0>>
ASSUME \A n \in 2..40, d \in {-12345678, -7, 0, 1, 999, 40031430} :
    /\ On(5, 5 + d, 1, n) = 5 /\ On(5, 5 + d, n, n) = 5 + d
    /\ \A i \in 1..(n - 1) : LET s == On(5, 5 + d, i + 1, n) - On(5, 5 + d, i, n) IN Abs((s * (n - 1)) - d) <= 2 * (n - 1)
=============================================================================
