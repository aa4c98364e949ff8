------------------------------- MODULE VGElement -------------------------------
(* Elements under construction: which values their attributes accept, how attributes depend on *)
(* each other, and what record an element stands for.  A value offered by a caller is          *)
(* [t, v] with t one of                                                                        *)
(*   "i" integer   "ni" integer of another type   "f" number v / 1000   "n" None               *)
(*   "nan" "inf"   "s" text   "big" an integer beyond 32 bits (v its sign)                     *)
(* Sizes and rotations are kept in thousandths, other attributes as integers.                  *)
EXTENDS VGMeaning

Common == {"closed", "filled", "smooth", "group_type", "group_number", "major_color",
           "minor_color"}
SymbolAttrs == {"width", "size", "symbol_code", "offset_x", "offset_y"}
Own(kind) ==
    CASE kind = "line" -> {"width", "line_type"}
      [] kind = "spline" -> {"width", "line_type", "size", "direction"}
      [] kind = "front" -> {"width", "front_code", "pip_size", "pip_stroke", "pip_direction"}
      [] kind = "sptext" -> {"size", "font", "width", "align", "rotation", "offset_x", "offset_y",
                             "text_flag", "text_color", "text_type", "edgecolor", "facecolor",
                             "turbulence_symbol"}
      [] kind \in {"symbol", "marker"} -> SymbolAttrs
Attrs(kind) == Common \cup Own(kind)
WKinds == {"line", "spline", "front", "sptext", "symbol", "marker"}

Max32 == 2147483647
Fonts == {a + 10 * b : a \in 1..3, b \in 0..3}
Points == {10, 12, 14, 18, 24, 34}
Kink == {24, 25}
(* ------------------------- which values are accepted ------------------------- *)
Whole(x, lo, hi) ==
    CASE x.t = "i" -> IF x.v >= lo /\ x.v <= hi THEN "yes" ELSE "no"
      [] x.t = "ni" -> IF x.v >= lo /\ x.v <= hi THEN "either" ELSE "no"
      [] x.t = "f" -> IF x.v % 1000 = 0 /\ x.v \div 1000 >= lo /\ x.v \div 1000 <= hi
                      THEN "either" ELSE "no"
      [] OTHER -> "no"
And(r, b) == IF b THEN r ELSE "no"
Iv(x) == IF x.t = "f" THEN x.v \div 1000 ELSE IF x.t \in {"i", "ni"} THEN x.v ELSE -Max32
Tv(x) == IF x.t = "f" THEN x.v ELSE 1000 * x.v
Real(x, lo, hi) ==
    CASE x.t \in {"i", "f"} -> IF Tv(x) >= lo /\ Tv(x) <= hi THEN "yes" ELSE "no"
      [] x.t = "ni" -> IF Tv(x) >= lo /\ Tv(x) <= hi THEN "either" ELSE "no"
      [] OTHER -> "no"
\* st: the attributes the answer depends on
Accepts(kind, st, a, x) ==
    CASE a = "closed" -> Whole(x, 0, 1)
      [] a = "filled" -> Whole(x, 0, 8)
      [] a = "smooth" -> Whole(x, 0, 2)
      [] a = "group_type" -> Whole(x, 0, 255)
      [] a = "group_number" -> Whole(x, 0, Max32)
      [] a \in {"major_color", "minor_color", "text_color", "edgecolor", "facecolor"} -> Whole(x, 0, 32)
      [] a = "width" /\ kind = "front" -> Whole(x, 1, 8)
      [] a = "width" /\ kind = "sptext" ->
           IF Whole(x, 1, 10) = "no" /\ Whole(x, -Max32, Max32) # "no" THEN "either" ELSE Whole(x, 1, 10)
      [] a = "width" -> Whole(x, 1, 10)
      [] a = "line_type" /\ kind = "line" -> Whole(x, 0, 99)
      [] a = "line_type" -> Whole(x, 1, 26)
      [] a = "direction" -> And(Whole(x, -1, 1), Iv(x) # 0)
      [] a = "stroke" -> IF st.line_type \in Kink THEN Whole(x, 25, 75) ELSE "yes"
      [] a = "size" /\ kind = "sptext" -> And(Whole(x, 10, 34), Iv(x) \in Points)
      [] a = "size" -> Real(x, 100, 10000)
      [] a = "front_code" -> Whole(x, 0, 999)
      [] a = "pip_size" -> Whole(x, 40, 500)
      [] a = "pip_stroke" -> Whole(x, 1, Max32)
      [] a = "pip_direction" -> And(Whole(x, -1, 1), Iv(x) # 0)
      [] a = "font" -> IF st.text_flag = 2 THEN And(Whole(x, 1, 33), Iv(x) \in Fonts)
                       ELSE Whole(x, -Max32, Max32)
      [] a = "align" -> Whole(x, -1, 1)
      [] a = "text_flag" -> Whole(x, 1, 2)
      [] a = "text_type" -> Whole(x, 0, 16)
      [] a = "turbulence_symbol" ->
           Whole(x, 0, IF st.text_type \in {7, 9} THEN 8 ELSE 10)
      [] a = "rotation" -> Real(x, -Max32, Max32)
      [] a \in {"offset_x", "offset_y"} -> Whole(x, -Max32, Max32)
      [] a = "symbol_code" /\ kind = "symbol" -> Whole(x, 0, 41)
      [] a = "symbol_code" -> IF Iv(x) = 0 THEN "either" ELSE Whole(x, 1, 24)

Value(kind, a, x) ==
    IF a = "rotation" \/ (a = "size" /\ kind # "sptext") THEN Tv(x) ELSE Iv(x)
Tens(code) == (code \div 10) % 10
WithWidth(code, w) == 100 * (code \div 100) + 10 * w + (code % 10)
\* the attributes after an accepted assignment
Assign(kind, st, a, x) ==
    LET v == Value(kind, a, x) IN
    CASE a = "front_code" -> [st EXCEPT !.front_code = v, !.width = Tens(v)]
      [] a = "width" /\ kind = "front" ->
           [st EXCEPT !.width = v, !.front_code = WithWidth(@, v)]
      [] a = "text_type" -> [st EXCEPT !.text_type = v, !.turbulence_symbol = 0]
      [] OTHER -> [st EXCEPT ![a] = v]
FlipAttr(kind) == IF kind = "front" THEN "pip_direction" ELSE "direction"
Flip(kind, st) == [st EXCEPT ![FlipAttr(kind)] = -@]

(* ------------------------- construction ------------------------- *)
N == [t |-> "n", v |-> 0]
Num1(v) == [t |-> "i", v |-> v]
Defaults(kind) ==
    CASE kind = "line" -> [filled |-> 0, smooth |-> 0, width |-> 2]
      [] kind = "spline" -> [filled |-> 0, stroke |-> 1, width |-> 2, smooth |-> 0, size |-> 1,
                             direction |-> 1]
      [] kind = "front" -> [smooth |-> 2, pip_size |-> 100, pip_stroke |-> 1, pip_direction |-> 1]
      [] kind = "sptext" -> [size |-> 12, text_type |-> 0, font |-> 22, align |-> 0, rotation |-> 0,
                             offset_x |-> 0, offset_y |-> 0, turbulence_symbol |-> 0]
      [] OTHER -> [width |-> 1, size |-> 1, offset_x |-> 0, offset_y |-> 0]
Required(kind) ==
    CASE kind \in {"line", "spline"} -> {"color", "line_type", "closed"}
      [] kind = "front" -> {"front_code", "major_color"}
      [] kind = "sptext" -> {"text_color"}
      [] OTHER -> {"symbol_code", "color"}
Optional(kind) == (DOMAIN Defaults(kind))
                  \cup (CASE kind = "front" -> {"minor_color"}
                          [] kind = "sptext" -> {"edgecolor", "facecolor"} [] OTHER -> {})
\* the argument offered for a name, defaults filled in
Arg(kind, args, n) ==
    IF n \in DOMAIN args THEN args[n]
    ELSE IF n \in DOMAIN Defaults(kind) THEN Num1(Defaults(kind)[n]) ELSE N
\* an optional colour left out or None follows the main one
Colour(kind, args, n, main) == IF Arg(kind, args, n).t = "n" THEN args[main] ELSE args[n]
ArgAttr(n) == IF n = "color" THEN "major_color" ELSE n
Fallback == {"minor_color", "edgecolor", "facecolor"}
\* attributes that decide whether others are accepted
Ctx(kind, args) ==
    CASE kind = "spline" -> [line_type |-> Iv(args.line_type)]
      [] kind = "sptext" -> [text_flag |-> 2, text_type |-> Iv(Arg(kind, args, "text_type"))]
      [] OTHER -> [none |-> 0]
Worst(rs) == IF "no" \in rs THEN "no" ELSE IF "either" \in rs THEN "either" ELSE "yes"
ArgsOK(kind, args) ==
    Worst({IF n \in Fallback /\ Arg(kind, args, n).t = "n" THEN "yes"
           ELSE Accepts(kind, Ctx(kind, args), ArgAttr(n), Arg(kind, args, n))
           : n \in Required(kind) \cup Optional(kind)})
\* shape: [lon, lat: numbers of points, point: one location] ; text: length in bytes, -1 not text
PlaceOK(kind, nlon, nlat) ==
    IF kind \in {"line", "spline", "front"}
    THEN (IF nlon = nlat /\ nlon >= 2 /\ nlon <= MaxPoints THEN "yes" ELSE "no") ELSE "yes"
TextOK(kind, n) == IF kind # "sptext" THEN "yes"
                   ELSE IF n < 0 \/ n > 255 THEN "no" ELSE IF n = 255 THEN "either" ELSE "yes"
New(kind, args) ==
    LET v(n) == Value(kind, ArgAttr(n), Arg(kind, args, n))
        base(c) == [closed |-> 0, filled |-> 0, smooth |-> 0, group_type |-> 0,
                    group_number |-> 0, major_color |-> c, minor_color |-> c]
    IN CASE kind = "line" ->
              [width |-> v("width"), line_type |-> v("line_type"), closed |-> v("closed"),
               filled |-> v("filled"), smooth |-> v("smooth")] @@ base(v("color"))
         [] kind = "spline" ->
              [width |-> v("width"), line_type |-> v("line_type"), closed |-> v("closed"),
               filled |-> v("filled"), smooth |-> v("smooth"), size |-> v("size"),
               direction |-> v("direction")] @@ base(v("color"))
         [] kind = "front" ->
              [front_code |-> v("front_code"), width |-> Tens(v("front_code")),
               pip_size |-> v("pip_size"), pip_stroke |-> v("pip_stroke"),
               pip_direction |-> v("pip_direction"), smooth |-> v("smooth"),
               minor_color |-> Iv(Colour(kind, args, "minor_color", "major_color"))]
              @@ base(v("major_color"))
         [] kind = "sptext" ->
              [size |-> v("size"), font |-> v("font"), width |-> 1, align |-> v("align"),
               rotation |-> v("rotation"), offset_x |-> v("offset_x"), offset_y |-> v("offset_y"),
               text_flag |-> 2, text_color |-> v("text_color"), text_type |-> v("text_type"),
               edgecolor |-> Iv(Colour(kind, args, "edgecolor", "text_color")),
               facecolor |-> Iv(Colour(kind, args, "facecolor", "text_color")),
               turbulence_symbol |-> v("turbulence_symbol")] @@ base(v("text_color"))
         [] OTHER ->
              [width |-> v("width"), size |-> v("size"), symbol_code |-> v("symbol_code"),
               offset_x |-> v("offset_x"), offset_y |-> v("offset_y")] @@ base(v("color"))
\* only kinked lines use the stroke; others carry 1
StrokeOf(kind, args) ==
    IF kind = "spline" /\ Iv(args.line_type) \in Kink THEN Iv(Arg(kind, args, "stroke")) ELSE 1

(* ------------------------- the record an element stands for ------------------------- *)
\* e: [kind, st, stroke, lon, lat (thousandths), text]
RecordKind(kind) == IF kind \in {"symbol", "marker"} THEN "symbol" ELSE kind
ClassType(kind) ==
    CASE kind = "line" -> <<3, 1>> [] kind = "spline" -> <<3, 20>> [] kind = "front" -> <<1, 2>>
      [] kind = "sptext" -> <<5, 21>> [] kind = "symbol" -> <<4, 15>> [] kind = "marker" -> <<4, 19>>
\* text size: printer's points over 14, in thousandths (no value lies half way)
Hardware(points) == (2000 * points + 14) \div 28
Cents(s) == [i \in DOMAIN s |-> s[i] \div 10]
Body(e) ==
    LET s == e.st IN
    CASE e.kind = "line" ->
           [number_points |-> Len(e.lon), line_type |-> s.line_type, line_type_hardware |-> 0,
            width |-> s.width, line_width_hardware |-> 0, lat |-> Cents(e.lat), lon |-> Cents(e.lon)]
      [] e.kind = "spline" ->
           [number_points |-> Len(e.lon), line_type |-> s.line_type, stroke |-> e.stroke,
            direction |-> s.direction, size |-> s.size \div 100, width |-> s.width,
            lat |-> Cents(e.lat), lon |-> Cents(e.lon)]
      [] e.kind = "front" ->
           [number_points |-> Len(e.lon), front_code |-> s.front_code, pip_size |-> s.pip_size,
            pip_stroke |-> s.pip_stroke, pip_direction |-> s.pip_direction, width |-> s.width,
            label |-> <<83, 80, 67>>, lat |-> Cents(e.lat), lon |-> Cents(e.lon)]
      [] e.kind = "sptext" ->
           [rotation |-> s.rotation \div 100, size |-> Hardware(s.size), text_type |-> s.text_type,
            turbulence_symbol |-> s.turbulence_symbol, font |-> s.font, text_flag |-> s.text_flag,
            width |-> s.width, text_color |-> s.text_color, line_color |-> s.edgecolor,
            fill_color |-> s.facecolor, align |-> s.align, lat |-> e.lat[1] \div 10,
            lon |-> e.lon[1] \div 10, offset_x |-> s.offset_x, offset_y |-> s.offset_y,
            text |-> e.text]
      [] OTHER ->
           [number_symbols |-> 1, width |-> s.width, size |-> s.size \div 100, symbol_type |-> 0,
            symbol_code |-> s.symbol_code, lat |-> e.lat[1] \div 10, lon |-> e.lon[1] \div 10,
            offset_x |-> s.offset_x, offset_y |-> s.offset_y]
Least(s) == CHOOSE m \in Range(s) : \A x \in Range(s) : m <= x
Most(s) == CHOOSE m \in Range(s) : \A x \in Range(s) : m >= x
Bounds(e) == [min_lat |-> Least(e.lat), min_lon |-> Least(e.lon),
              max_lat |-> Most(e.lat), max_lon |-> Most(e.lon)]
RecordSize(e) ==
    40 + (CASE e.kind = "line" -> 20 + 8 * Len(e.lon)
            [] e.kind = "spline" -> 24 + 8 * Len(e.lon)
            [] e.kind = "front" -> 28 + 8 * Len(e.lon)
            [] e.kind = "sptext" -> 60 + Len(e.text) + 1
            [] OTHER -> 36)
HeaderOf(e) ==
    LET s == e.st  b == Bounds(e) IN
    [delete |-> 0, vg_type |-> ClassType(e.kind)[2], vg_class |-> ClassType(e.kind)[1],
     filled |-> s.filled, closed |-> s.closed, smooth |-> s.smooth, version |-> 0,
     group_type |-> s.group_type, group_number |-> s.group_number,
     major_color |-> s.major_color, minor_color |-> s.minor_color,
     record_size |-> RecordSize(e), min_lat |-> b.min_lat \div 10, min_lon |-> b.min_lon \div 10,
     max_lat |-> b.max_lat \div 10, max_lon |-> b.max_lon \div 10]

\* what a reader reports: coordinates and bounds to the hundredth, sizes and rotation to the tenth
Near(v, u) == u * ((v + (u \div 2)) \div u)
Fine(v) == <<v \div 1000, v % 1000>>
Deg(v) == Fine(Near(v, 10))
Degs(s) == FlattenSeq([i \in DOMAIN s |-> Deg(s[i])])
IsPath(kind) == kind \in {"line", "spline", "front"}
FineAttr(e, n) ==
    LET cl == Closes(e.kind, e.st, [number_points |-> Len(e.lon)])
        rv == e.kind = "spline" /\ e.st.direction = -1
    IN CASE n \in {"min_lat", "min_lon", "max_lat", "max_lon"} -> <<1>> \o Deg(Bounds(e)[n])
         [] n = "lat" /\ IsPath(e.kind) -> <<3>> \o Degs(Shape(cl, rv, e.lat))
         [] n = "lon" /\ IsPath(e.kind) -> <<3>> \o Degs(Shape(cl, rv, e.lon))
         [] n = "lat" -> <<1>> \o Deg(e.lat[1])
         [] n = "lon" -> <<1>> \o Deg(e.lon[1])
         [] n = "size" /\ e.kind # "sptext" -> <<1>> \o Fine(Near(e.st.size, 100))
         [] n = "rotation" -> <<1>> \o Fine(Near(e.st.rotation, 100))
FineNames == {"min_lat", "min_lon", "max_lat", "max_lon", "lat", "lon", "size", "rotation"}
Reported(e) ==
    LET x == HdrExpect(HeaderOf(e)) \o Expect(RecordKind(e.kind), HeaderOf(e), Body(e))
    IN [i \in DOMAIN x |->
          IF x[i].n \in FineNames /\ ~(x[i].n = "size" /\ e.kind = "sptext")
          THEN At(x[i].n, FineAttr(e, x[i].n)) ELSE x[i]]
ReportedNames(e) == Derived(RecordKind(e.kind), Body(e))
=============================================================================
