-------------------------------- MODULE Geometry --------------------------------
(* Geometry of GEMPAK grids: what the navigation block of a file says, what a caller's          *)
(* projection must be stored as, and where the points of a grid lie.  Angles, latitudes and     *)
(* longitudes are integers (thousandths of degrees), projected coordinates integers (metres).   *)
(* The projections themselves (formulas of the sphere) are a parameter: the events carry the    *)
(* positions they give for the points of the grid as this module defines them.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Deg == 1000
Turn == 360 * Deg
Lesser(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(lon) == LET m == lon % Turn IN IF m >= 180 * Deg THEN m - Turn ELSE m
LonDist(a, b) == Abs(Wrap(a - b))

(* ------------------------------ projections ------------------------------ *)
Cylindrical == {"MER", "CED", "MCD"}
Conic == {"LCC", "SCC"}
Azimuthal == {"STR", "NPS", "SPS", "AED", "ORT", "NOR", "SOR", "LEA", "GNO"}
Kinds == Cylindrical \cup Conic \cup Azimuthal
\* the projection (as PROJ calls it) and what it is centred on
Family(kind) ==
    CASE kind = "MER" -> "merc" [] kind \in {"CED", "MCD"} -> "eqc" [] kind \in Conic -> "lcc"
      [] kind \in {"STR", "NPS", "SPS"} -> "stere" [] kind = "AED" -> "aeqd"
      [] kind \in {"ORT", "NOR", "SOR"} -> "ortho" [] kind = "LEA" -> "laea" [] kind = "GNO" -> "gnom"
\* what a navigation block means: projection, central longitude, and the latitudes it depends on
\* (the positions of a cylindrical grid between two corners depend on no other latitude)
Meaning(n) ==
    [proj |-> Family(n.kind), lon0 |-> n.a2,
     lats |-> IF n.kind \in Conic THEN <<n.a1, n.a3>> ELSE IF n.kind \in Azimuthal THEN <<n.a1>> ELSE <<>>]

\* How a caller's projection is stored.  c: [family, lat0, lon0, lat1, lat2, ts, two (standard
\* parallels given), rot]; ts: latitude of true scale, or 0.
Stored(c) ==
    LET k == CASE c.family = "merc" -> "MER" [] c.family = "eqc" -> "CED" [] c.family = "lcc" -> "LCC"
               [] c.family = "stere" -> "STR" [] c.family = "aeqd" -> "AED" [] c.family = "ortho" -> "ORT"
               [] c.family = "laea" -> "LEA" [] c.family = "gnom" -> "GNO"
    IN [kind |-> k, a2 |-> c.lon0,
        a1 |-> IF k = "LCC" THEN c.lat1 ELSE IF k = "MER" THEN c.ts ELSE c.lat0,
        a3 |-> IF k = "LCC" THEN (IF c.two = 1 THEN c.lat2 ELSE c.lat1)
               ELSE IF k = "STR" /\ Abs(c.lat0) = 90 * Deg THEN 0 ELSE c.rot]

(* ------------------------------ points ------------------------------ *)
\* column i of n (from 1) between the projected coordinates a of the first and b of the last;
\* the products stay within 32 bits for the kilometre, the rest is added exactly
Share(d, i, n) == ((d \div (n - 1)) * (i - 1)) + (((d % (n - 1)) * (i - 1)) \div (n - 1))
On(a, b, i, n) == IF n = 1 THEN a ELSE a + Share(b - a, i, n)
Circumference == 40031430      \* of the sphere of radius 6371200 m
\* the last column of a cylindrical grid lies east of the first
LastX(kind, a, b) == IF kind \in Cylindrical /\ b <= a THEN b + Circumference ELSE b

\* (x within cos(lat) >= 1 - |lat| / 90)
Near(lat, lon, lat2, lon2, tol) ==
    /\ Abs(lat - lat2) <= tol
    /\ LET c == 90 - (Abs(lat) \div Deg) IN
       (Lesser(LonDist(lon, lon2), 20000) * c) <= tol * 90
=============================================================================
