------------------------------ MODULE VGMeaning ------------------------------
(* What a VGF file means: where the values of a record are stored, which records of a file are *)
(* elements, what a reader reports for them, and what queries on the elements return.          *)
EXTENDS VGLayout

Blank == 9..13 \cup 28..32
Pow10(d) == CASE d = 0 -> 1 [] d = 1 -> 10 [] d = 2 -> 100 [] OTHER -> 1000

(* --------------------------- text --------------------------- *)
Trim(s) ==
    IF \A i \in DOMAIN s : s[i] \in Blank THEN <<>>
    ELSE LET a == CHOOSE i \in DOMAIN s : s[i] \notin Blank /\ \A j \in 1..(i - 1) : s[j] \in Blank
             b == CHOOSE i \in DOMAIN s : s[i] \notin Blank
                                          /\ \A j \in (i + 1)..Len(s) : s[j] \in Blank
         IN SubSeq(s, a, b)
\* Bytes that are no part of UTF-8 text are left out.
Cont(b) == b \in 128..191
UtfLen(s, i) ==      \* of the character starting at i; 0: none does
    LET b == s[i]  at(k) == IF i + k > Len(s) THEN -1 ELSE s[i + k] IN
    CASE b < 128 -> 1
      [] b \in 194..223 -> IF Cont(at(1)) THEN 2 ELSE 0
      [] b \in 224..239 -> IF /\ at(1) \in (IF b = 224 THEN 160..191 ELSE IF b = 237 THEN 128..159
                                           ELSE 128..191)
                             /\ Cont(at(2)) THEN 3 ELSE 0
      [] b \in 240..244 -> IF /\ at(1) \in (IF b = 240 THEN 144..191 ELSE IF b = 244 THEN 128..143
                                           ELSE 128..191)
                             /\ Cont(at(2)) /\ Cont(at(3)) THEN 4 ELSE 0
      [] OTHER -> 0
Readable(s) ==
    IF \A i \in DOMAIN s : s[i] < 128 THEN s
    ELSE FoldLeft(LAMBDA a, i :
                    IF a.left > 0 THEN [t |-> Append(a.t, s[i]), left |-> a.left - 1]
                    ELSE LET n == UtfLen(s, i) IN
                         IF n = 0 THEN a ELSE [t |-> Append(a.t, s[i]), left |-> n - 1],
                  [t |-> <<>>, left |-> 0], [i \in DOMAIN s |-> i]).t
\* "$$" stands for a line break; pairs are taken from the left
Breaks(s) ==
    FoldLeft(LAMBDA a, ch : IF ch = 36 /\ a.h = 1 THEN [s |-> Append(a.s, 10), h |-> 0]
                            ELSE IF ch = 36 THEN [s |-> a.s, h |-> 1]
                            ELSE [s |-> (IF a.h = 1 THEN Append(a.s, 36) ELSE a.s) \o <<ch>>, h |-> 0],
             [s |-> <<>>, h |-> 0], s)
LineBreaks(s) == LET a == Breaks(s) IN IF a.h = 1 THEN Append(a.s, 36) ELSE a.s

(* --------------------------- where things are stored --------------------------- *)
Pl(o, k, z, d, v) == [o |-> o, k |-> k, z |-> z, d |-> d, v |-> v]
Room(c, m) == IF m > c THEN m ELSE c
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
FixedSize(lay) == Sum([i \in DOMAIN lay |-> lay[i].z])
RECURSIVE PlaceL(_, _, _)
\* a = [o: next offset, p: placements so far]
PlaceIt(it, val, a) ==
    CASE it.k = "p" -> [a EXCEPT !.o = @ + it.z]
      [] it.k \in {"af", "ai"} ->
           LET c == val[it.c]  n == Len(it.ns) IN
           [o |-> a.o + 4 * n * Room(c, it.m),
            p |-> a.p \o [q \in 1..n |-> Pl(a.o + 4 * c * (q - 1), it.k, 4, it.d, val[it.ns[q]])]]
      [] it.k \in {"as", "az"} ->
           LET c == val[it.c] IN
           [o |-> a.o + it.z * Room(c, it.m),
            p |-> a.p \o [q \in 1..c |-> Pl(a.o + it.z * (q - 1), "z", it.z, 0, val[it.n][q])]]
      [] it.k = "r" ->
           LET c == val[it.c]
               b == FoldLeft(LAMBDA x, v : PlaceL(it.sub, v, x), a, val[it.n])
           IN [b EXCEPT !.o = a.o + FixedSize(it.sub) * Room(c, it.m)]
      [] it.k = "o" -> PlaceL(it.sub, val[it.n], a)
      [] it.k = "x" -> [o |-> a.o + Len(val[it.n]) + 1,
                        p |-> Append(a.p, Pl(a.o, "z", Len(val[it.n]) + 1, 0, val[it.n]))]
      [] OTHER -> [o |-> a.o + it.z, p |-> Append(a.p, Pl(a.o, it.k, it.z, it.d, val[it.n]))]
PlaceL(lay, val, a) == FoldLeft(LAMBDA b, it : PlaceIt(it, val, b), a, lay)

(* The tropical cyclone advisory is a list of tagged values.  kind of value: i integer, f       *)
(* hundredths, s text, w numbers separated by bars, b break points lat|lon|name.                *)
Tag(t, k, v) == [t |-> t, k |-> k, v |-> v]
TcaTags(v) ==
    <<Tag("stormNum", "i", v.storm_number), Tag("issueStatus", "s", v.issue_status),
      Tag("basin", "i", v.basin), Tag("advisoryNum", "i", v.advisory_number),
      Tag("stormName", "s", v.storm_name), Tag("stormType", "i", v.storm_type),
      Tag("validTime", "s", v.valid_time), Tag("timezone", "s", v.timezone),
      Tag("textLat", "f", v.text_lat), Tag("textLon", "f", v.text_lon),
      Tag("textFont", "i", v.text_font), Tag("textSize", "f", v.text_size),
      Tag("textWidth", "i", v.text_width), Tag("wwNum", "i", Len(v.ww))>>
    \o FlattenSeq([i \in DOMAIN v.ww |->
         LET j == ToString(i - 1)  w == v.ww[i] IN
         <<Tag("tcawwStr_" \o j, "w", <<w.severity, w.advisory_type, w.special_geography>>),
           Tag("numBreakPts_" \o j, "i", Len(w.break_points)),
           Tag("breakPts_" \o j, "b", w.break_points)>>])

Place(id, val) ==
    IF id = "tca" THEN [size |-> 0, pl |-> <<>>, tags |-> TcaTags(val)]
    ELSE LET a == PlaceL(KindOf(id).l, val, [o |-> 0, p |-> <<>>])
         IN [size |-> a.o, pl |-> a.p, tags |-> <<>>]

(* --------------------------- what a reader reports --------------------------- *)
Num(v, d) == <<v \div Pow10(d), (v % Pow10(d)) * Pow10(3 - d)>>
Nums(vs, d) == FlattenSeq([i \in DOMAIN vs |-> Num(vs[i], d)])
At(n, x) == [n |-> n, x |-> x]
Txt(s) == <<2>> \o s
Txts(ss) == IF ss = <<>> THEN <<3>>
            ELSE <<5>> \o FlattenSeq([i \in DOMAIN ss |-> <<Len(ss[i])>> \o ss[i]])
RECURSIVE ExpectL(_, _, _)
\* closing a shape repeats its first point; a left-handed line is reported the other way round
Shape(cl, rev, s) ==
    LET t == IF cl THEN Append(s, s[1]) ELSE s IN IF rev THEN Reverse(t) ELSE t
ExpectIt(it, val, pre, cl, rev) ==
    LET n == pre \o it.n IN
    CASE it.k = "p" \/ it.h = 1 -> <<>>
      [] it.k \in {"af", "ai"} ->
           [q \in DOMAIN it.ns |->
              At(pre \o it.ns[q],
                 <<3>> \o Nums(IF it.ns[q] \in {"lat", "lon"} THEN Shape(cl, rev, val[it.ns[q]])
                               ELSE val[it.ns[q]], it.d))]
      [] it.k = "as" -> <<At(n, Txts([i \in DOMAIN val[it.n] |-> Readable(val[it.n][i])]))>>
      [] it.k = "az" -> <<At(n, Txts([i \in DOMAIN val[it.n] |-> Trim(Readable(val[it.n][i]))]))>>
      [] it.k = "r" ->
           IF val[it.n] = <<>> THEN <<At(n, <<3>>)>>
           ELSE FlattenSeq([i \in DOMAIN val[it.n] |->
                  ExpectL(it.sub, val[it.n][i], n \o "." \o ToString(i - 1) \o ".")])
      [] it.k = "o" -> ExpectL(it.sub, val[it.n], n \o ".")
      [] it.k = "x" -> <<At(n, Txt(Trim(LineBreaks(Readable(val[it.n])))))>>
      [] it.k \in {"f", "fl"} -> <<At(n, <<1>> \o Num(val[it.n], it.d))>>
      [] it.k = "s" -> <<At(n, Txt(Trim(Readable(val[it.n]))))>>
      [] it.k = "z" -> <<At(n, Txt(Readable(val[it.n])))>>
      [] it.k = "t" -> <<At(n, <<6>> \o val[it.n])>>
      [] OTHER -> <<At(n, <<1, val[it.n], 0>>)>>
ExpectL(lay, val, pre) ==
    FlattenSeq([i \in DOMAIN lay |-> ExpectIt(lay[i], val, pre, FALSE, FALSE)])

Closes(id, hdr, val) ==
    \/ id \in {"line", "spline"} /\ hdr.closed = 1 /\ val.number_points > 2
    \/ id \in {"watch0", "watch1", "watch2", "watch3", "watch4", "watch5", "watch6"}
       /\ val.number_points > 2
Reverses(id, val) == id = "spline" /\ val.direction = -1

TcaExpect(v) ==
    <<At("storm_number", <<1, v.storm_number, 0>>), At("issue_status", Txt(v.issue_status)),
      At("basin", <<1, v.basin, 0>>), At("advisory_number", <<1, v.advisory_number, 0>>),
      At("storm_name", Txt(Readable(v.storm_name))), At("storm_type", <<1, v.storm_type, 0>>),
      At("valid_time", Txt(v.valid_time)), At("timezone", Txt(v.timezone)),
      At("text_lat", <<1>> \o Num(v.text_lat, 2)), At("text_lon", <<1>> \o Num(v.text_lon, 2)),
      At("text_font", <<1, v.text_font, 0>>), At("text_size", <<1>> \o Num(v.text_size, 2)),
      At("text_width", <<1, v.text_width, 0>>), At("number_ww", <<1, Len(v.ww), 0>>)>>
    \o FlattenSeq([i \in DOMAIN v.ww |->
         LET p == "ww." \o ToString(i - 1) \o "."  w == v.ww[i] IN
         <<At(p \o "severity", <<1, w.severity, 0>>),
           At(p \o "advisory_type", <<1, w.advisory_type, 0>>),
           At(p \o "special_geography", <<1, w.special_geography, 0>>),
           At(p \o "number_breaks", <<1, Len(w.break_points), 0>>)>>
         \o FlattenSeq([j \in DOMAIN w.break_points |->
              LET q == p \o "break_points." \o ToString(j - 1) \o "."  b == w.break_points[j] IN
              <<At(q \o "0", <<1>> \o Num(b.lat, 2)), At(q \o "1", <<1>> \o Num(b.lon, 2)),
                At(q \o "2", Txt(Readable(b.name)))>>])])

Expect(id, hdr, val) ==
    IF id = "tca" THEN TcaExpect(val)
    ELSE LET lay == KindOf(id).l
             cl == Closes(id, hdr, val)
             rv == Reverses(id, val)
         IN FlattenSeq([i \in DOMAIN lay |-> ExpectIt(lay[i], val, "", cl, rv)])
\* the header is reported field by field (hundredths of a degree for the bounds)
HdrExpect(hdr) == ExpectL(Header, hdr, "")

(* --------------------------- names derived from codes --------------------------- *)
LineNames == <<"dotted", "solid", "short_dashed", "medium_dashed", "long_dash_short_dash",
    "long_dash", "long_dash_three_short_dash", "long_dash_dot", "long_dash_three_dot",
    "extra_long_dash_two_dot">>
SpLineNames == <<"ball_chain", "zigzag", "scallop", "pointed_arrow", "alt_angle_ticks",
    "filled_arrow", "box_circles", "two_x", "filled_circles", "line_fill_circle_line",
    "tick_marks", "line_x_line", "fancy_arrow", "fill_circle_x", "box_x", "line_circle_line",
    "line_caret_line1", "line_caret_line2", "sine_curve", "arrow_dashed", "fill_arrow_dash",
    "streamline", "double_line", "kink_line1", "kink_line2", "z_line">>
MarkerNames == <<"none", "plus_sign", "octagon", "triangle", "box", "small_x", "diamond",
    "up_arrow", "x_bar", "z_bar", "y", "box_diagonals", "asterisk", "hourglass", "star", "dot",
    "large_x", "filled_octagon", "filled_triangle", "filled_box", "filled_diamond",
    "filled_star", "minus_sign", "tropical_storm", "hurricane">>
ListNames == <<"county", "zone", "wfo", "state", "marine_county">>
FrontNames == <<"stationary", "stationary_aloft", "warm", "warm_aloft", "cold", "cold_aloft",
    "occluded", "dryline", "intertropical", "convergence">>
IntensityNames == <<"unspecified", "weak_decreasing", "weak", "weak_increasing",
    "moderate_decreasing", "moderate", "moderate_increasing", "strong_decreasing", "strong",
    "strong_increasing">>
CharacterNames == <<"unspecified", "frontal_decreasing", "little_change", "area_increasing",
    "intertropical", "forming_suspected", "quasi_stationary", "with_waves", "diffuse",
    "position_doubtful">>
BasinNames == <<"atlantic", "east_pacific", "central_pacific", "west_pacific">>
StormNames == <<"hurricane", "tropical_storm", "tropical_depression", "subtropical_storm",
    "subtropical_depression">>
SeverityNames == <<"tropical_storm", "hurricane">>
AdvisoryNames == <<"watch", "warning">>
GeographyNames == <<"no_types", "islands", "water">>
LevelNames == <<"hurricane_warning", "hurricane_watch", "tropical_storm_warning",
    "tropical_storm_watch">>
StormCodes(val) == <<[n |-> "basin", s |-> BasinNames[1 + val.basin]],
                     [n |-> "storm_type", s |-> StormNames[1 + val.storm_type]]>>
ClassNames == <<"header", "fronts", "watches", "lines", "symbols", "text", "winds", "every",
    "comsym", "products", "tracks", "sigmets", "circle", "marker", "lists", "met", "blank">>
TypeNames == <<"line", "front", "?", "circle", "weather_symbol", "watch_box", "watch_county",
    "wind_barb", "wind_arrow", "cloud_symbol", "icing_symbol", "pressure_tendency_symbol",
    "past_weather_symbol", "sky_cover", "special_symbol", "turbulence_symbol", "text",
    "justified_text", "marker", "special_line", "special_text", "file_header",
    "directional_arrow", "hash_mark", "combination_weather_symbol", "storm_track",
    "international_sigmet", "nonconvective_sigmet", "convective_sigmet", "convective_outlook",
    "airmet", "ccf", "watch_status", "lists", "volcano", "ash_cloud", "jet", "gfa", "tca",
    "tc_error_cone", "tc_track", "tc_break_point", "sgwx">>
\* how an element prints
Printed(cls, h) == cls \o "[" \o ClassNames[1 + h.vg_class] \o ", " \o TypeNames[h.vg_type] \o "]"
Derived(id, val) ==
    CASE id \in {"line", "circle"} ->
           <<[n |-> "line_style", s |-> LineNames[1 + (val.line_type % 10)]]>>
      [] id = "spline" -> <<[n |-> "line_style", s |-> SpLineNames[val.line_type]]>>
      [] id = "list" -> <<[n |-> "list_type_name", s |-> ListNames[val.list_type]],
                          [n |-> "marker_name", s |-> MarkerNames[1 + val.marker_type]]>>
      [] id = "watch6" -> <<[n |-> "marker_name", s |-> MarkerNames[1 + val.marker_type]]>>
      [] id = "front" -> LET c == val.front_code IN
           <<[n |-> "front_type", s |-> FrontNames[1 + (c \div 100)]],
             [n |-> "front_intensity", s |-> IntensityNames[1 + ((c \div 10) % 10)]],
             [n |-> "front_character", s |-> CharacterNames[1 + (c % 10)]]>>
      [] id \in {"tcerror", "tctrack"} -> StormCodes(val)
      [] id = "tcbreak" ->
           Append(StormCodes(val), [n |-> "ww_level", s |-> LevelNames[1 + val.ww_level]])
      [] id = "tca" ->
           FlattenSeq([i \in DOMAIN val.ww |->
                LET p == "ww." \o ToString(i - 1) \o "."  w == val.ww[i] IN
                <<[n |-> p \o "severity", s |-> SeverityNames[1 + w.severity]],
                  [n |-> p \o "advisory_type", s |-> AdvisoryNames[1 + w.advisory_type]],
                  [n |-> p \o "special_geography", s |-> GeographyNames[1 + w.special_geography]]>>])
      [] OTHER -> <<>>
DerivedNum(id, val) ==
    IF id \in {"line", "circle"} THEN <<At("line_modifier", <<1, val.line_type \div 10, 0>>)>>
    ELSE <<>>

(* --------------------------- which records are elements --------------------------- *)
VGClasses == 0..16
VGTypes == {1, 2} \cup 4..43
ValidHeader(h, left) ==
    /\ left >= HdrSize
    /\ h.delete \in {0, 1} /\ h.vg_type \in VGTypes /\ h.vg_class \in VGClasses
    /\ h.major_color \in 0..32 /\ h.minor_color \in 0..32
    /\ h.record_size >= HdrSize /\ h.record_size <= left
\* index of the first record that ends the file (a header too short or not valid)
EndAt(recs) ==
    LET e == {i \in DOMAIN recs : ~ValidHeader(recs[i].hdr, recs[i].left)} IN
    IF e = {} THEN Len(recs) + 1 ELSE CHOOSE i \in e : \A j \in e : i <= j
Elements(recs) ==
    SelectSeq(SubSeq(recs, 1, EndAt(recs) - 1), LAMBDA r : r.id \in KindIds)
FileHeaders(recs) ==
    SelectSeq(SubSeq(recs, 1, EndAt(recs) - 1), LAMBDA r : r.id = "fileheader")

(* --------------------------- queries on the elements --------------------------- *)
\* els: sequence of headers.  A query is a predicate on class and type.
QueryDef(q) ==   \* <<class, type or 0>>
    CASE q = "fronts" -> <<1, 0>> [] q = "text" -> <<5, 0>> [] q = "special_text" -> <<5, 21>>
      [] q = "symbols" -> <<4, 0>> [] q = "special_symbols" -> <<4, 15>>
      [] q = "markers" -> <<4, 19>> [] q = "special_lines" -> <<3, 20>>
      [] q = "lines" -> <<3, 1>> [] q = "winds" -> <<6, 0>> [] q = "tracks" -> <<10, 0>>
      [] q = "watch_box" -> <<2, 0>> [] q = "sigmet" -> <<11, 0>> [] q = "met" -> <<15, 0>>
Pick(els, Test(_)) == SelectSeq([i \in DOMAIN els |-> i], LAMBDA i : Test(els[i]))
GetOf(els, q) ==
    LET d == QueryDef(q) IN
    Pick(els, LAMBDA h : h.vg_class = d[1] /\ (d[2] = 0 \/ h.vg_type = d[2]))
FilterOf(els, c, t, op) ==    \* c, t: -1 when not given
    IF c < 0 /\ t < 0 THEN <<>>
    ELSE Pick(els, LAMBDA h : IF t < 0 THEN h.vg_class = c
                              ELSE IF c < 0 THEN h.vg_type = t
                              ELSE IF op = "and" THEN h.vg_class = c /\ h.vg_type = t
                              ELSE h.vg_class = c \/ h.vg_type = t)
GroupTypes(els) == {els[i].group_type : i \in DOMAIN els} \ {0}
GroupNumbers(els, t) == {els[i].group_number : i \in {j \in DOMAIN els : els[j].group_type = t}}
\* groups of one type: by increasing number, members in file order
GroupsOf(els, t) ==
    LET ns == SetToSortSeq(GroupNumbers(els, t), <) IN
    [k \in DOMAIN ns |-> [num |-> ns[k], idx |-> Pick(els, LAMBDA h : h.group_type = t /\ h.group_number = ns[k])]]
Located(h) == ~(h.min_lat = 0 /\ h.min_lon = 0 /\ h.max_lat = 0 /\ h.max_lon = 0)
Encloses(b, els) ==
    \A i \in DOMAIN els : Located(els[i]) =>
       /\ b[1] <= els[i].min_lat /\ b[2] <= els[i].min_lon
       /\ b[3] >= els[i].max_lat /\ b[4] >= els[i].max_lon
Tight(b, els) ==
    LET L == {i \in DOMAIN els : Located(els[i])} IN
    L # {} => /\ \E i \in L : b[1] = els[i].min_lat
              /\ \E i \in L : b[2] = els[i].min_lon
              /\ \E i \in L : b[3] = els[i].max_lat
              /\ \E i \in L : b[4] = els[i].max_lon
=============================================================================
