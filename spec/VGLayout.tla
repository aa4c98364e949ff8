------------------------------ MODULE VGLayout ------------------------------
(* The VGF file format: a sequence of records, each a 40-byte header followed by a body whose  *)
(* layout depends on the class, type and version of the element.  A layout is a sequence of    *)
(* items; the same tables say where a value is stored (Place) and under which attribute a      *)
(* reader reports it (Expect).                                                                 *)
(*                                                                                             *)
(* Numbers are integers: a float field with d decimals holds v / 10^d.  A reported number x is *)
(* the pair <<floor x, thousandths>>, text is a sequence of byte codes.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

HdrSize == 40
MaxPoints == 500
MaxTracks == 50
MaxSigmet == 100
MaxAsh == 50
MaxJet == 50
MaxSgwx == 256
MaxCounty == 400
MaxCountyOld == 200

(* ------------------------------ items ------------------------------ *)
It(n, k, z, d, lo, hi) == [n |-> n, k |-> k, z |-> z, d |-> d, lo |-> lo, hi |-> hi,
                           c |-> "", m |-> 0, ns |-> <<>>, sub |-> <<>>, h |-> 0]
I(n) == It(n, "i", 4, 0, -999, 99999)                  \* big-endian integer
IR(n, lo, hi) == It(n, "i", 4, 0, lo, hi)
IL(n, lo, hi) == It(n, "il", 4, 0, lo, hi)              \* little-endian integer
F(n, d) == It(n, "f", 4, d, -900 * 10^d, 900 * 10^d)  \* big-endian float
FR(n, d, lo, hi) == It(n, "f", 4, d, lo, hi)
FL(n, d) == It(n, "fl", 4, d, -900 * 10^d, 900 * 10^d)
FLR(n, d, lo, hi) == It(n, "fl", 4, d, lo, hi)
S(n, z) == It(n, "s", z, 0, 0, 0)                       \* text, surrounding blanks dropped
Z(n, z) == It(n, "z", z, 0, 0, 0)                       \* text as it is
D(n, z, lo, hi) == It(n, "d", z, 0, lo, hi)             \* a number written as text
T(n, z) == It(n, "t", z, 0, 0, 0)                       \* yymmdd/HHMM text
P(z) == It("", "p", z, 0, 0, 0)                         \* padding
H(it) == [it EXCEPT !.n = "_" \o it.n, !.h = 1]         \* stored but not reported
Cnt(n, hi) == It(n, "n", 4, 0, 0, hi)                   \* a count of later items
PCnt(n, hi) == It(n, "n", 4, 0, 1, hi)
\* consecutive arrays of c elements each, followed by room for the rest up to m
Arr(ns, k, d, c, m) == [It("", "a" \o k, 4, d, -36000, 36000) EXCEPT !.ns = ns, !.c = c, !.m = m]
LatLon(c, m) == Arr(<<"lat", "lon">>, "f", 2, c, m)
Strs(n, z, c, m) == [It(n, "as", z, 0, 0, 0) EXCEPT !.c = c, !.m = m]
SStrs(n, z, c, m) == [It(n, "az", z, 0, 0, 0) EXCEPT !.c = c, !.m = m]
Rep(n, sub, c, m) == [It(n, "r", 0, 0, 0, 0) EXCEPT !.sub = sub, !.c = c, !.m = m]
Sub(n, sub) == [It(n, "o", 0, 0, 0, 0) EXCEPT !.sub = sub]
Text(n) == It(n, "x", 0, 0, 0, 0)                       \* text up to the end of the record

(* ------------------------------ header ------------------------------ *)
Byte(n, lo, hi) == It(n, "b", 1, 0, lo, hi)
Header ==
    <<Byte("delete", 0, 1), Byte("vg_type", 0, 255), Byte("vg_class", 0, 255),
      Byte("filled", 0, 8), Byte("closed", 0, 1), Byte("smooth", 0, 2), Byte("version", 0, 9),
      Byte("group_type", 0, 255), IR("group_number", 0, 9999), IR("major_color", 0, 32),
      IR("minor_color", 0, 32), IR("record_size", 0, 999999),
      F("min_lat", 2), F("min_lon", 2), F("max_lat", 2), F("max_lon", 2)>>

(* ------------------------------ bodies ------------------------------ *)
Pts == 12           \* default bound on generated point counts

FrontL == <<PCnt("number_points", Pts), IR("front_code", 0, 999), I("pip_size"), I("pip_stroke"),
            IR("pip_direction", -1, 1), I("width"), S("label", 4), LatLon("number_points", 0)>>
SymbolL == <<I("number_symbols"), I("width"), F("size", 1), I("symbol_type"),
             FR("symbol_code", 0, 0, 99), F("lat", 2), F("lon", 2), I("offset_x"), I("offset_y")>>
LineL == <<PCnt("number_points", Pts), IR("line_type", 0, 99), I("line_type_hardware"),
           I("width"), I("line_width_hardware"), LatLon("number_points", 0)>>
SpLineL == <<PCnt("number_points", Pts), IR("line_type", 1, 26), I("stroke"),
             IR("direction", -1, 1), F("size", 1), I("width"), LatLon("number_points", 0)>>
ListL == <<IR("list_type", 1, 5), IR("marker_type", 0, 24), F("marker_size", 1),
           I("marker_width"), Cnt("number_items", Pts), Strs("list_items", 9, "number_items", MaxPoints),
           Arr(<<"lat">>, "f", 2, "number_items", MaxPoints),
           Arr(<<"lon">>, "f", 2, "number_items", MaxPoints)>>
TextL == <<F("rotation", 1), F("size", 3), I("font"), I("text_flag"), I("width"),
           IR("align", -1, 1), F("lat", 2), F("lon", 2), I("offset_x"), I("offset_y"), Text("text")>>
SpTextInfo(pre) ==
    <<F(pre \o "rotation", 1), F(pre \o "size", 3), I("text_type"), I("turbulence_symbol"),
      I("font"), I("text_flag"), I(pre \o "width"), I("text_color"), I("line_color"),
      I("fill_color"), IR(pre \o "align", -1, 1)>>
SpTextL == SpTextInfo("") \o <<F("lat", 2), F("lon", 2), I("offset_x"), I("offset_y"), Text("text")>>
TrackBase ==
    <<I("track_type"), PCnt("total_points", Pts), I("initial_points"), I("initial_line_type"),
      I("extrapolated_line_type"), I("initial_mark_type"), I("extrapolated_mark_type"),
      I("line_width"), F("speed", 2), F("direction", 2), I("increment")>>
TrackTail == <<Strs("times", 18, "total_points", MaxTracks), LatLon("total_points", MaxTracks)>>
TrackL(v) == TrackBase \o (IF v >= 1 THEN <<IR("skip", -3, 4)>> ELSE <<>>)
             \o (IF v >= 2 THEN <<IR("font", 0, 33), I("font_flag"), FL("font_size", 1)>> ELSE <<>>)
             \o TrackTail
SigmetHead ==
    <<I("subtype"), PCnt("number_points", Pts), I("line_type"), I("line_width"),
      I("side_of_line"), S("area", 8), S("flight_info_region", 32), I("status"),
      F("distance", 2), S("message_id", 12), I("sequence_number"), S("start_time", 20),
      S("end_time", 20), S("remarks", 80), I("sonic"), S("phenomena", 32)>>
SigmetTail ==
    <<S("trend", 8), S("movement", 8), I("type_indicator"), S("type_time", 20),
      I("flight_level"), I("speed"), S("direction", 4), S("tops", 80), S("forecaster", 16),
      LatLon("number_points", 0)>>
SigmetL(v) == SigmetHead \o
    (IF v = 0 THEN <<>> ELSE
     <<S("phenomena2", 32), S("phenomena_name", 36), S("phenomena_lat", 8), S("phenomena_lon", 8),
       I("pressure"), I("max_wind"), S("free_text", 256)>>) \o SigmetTail
CcfL ==
    <<I("subtype"), PCnt("number_points", Pts), I("coverage"), I("storm_tops"), I("probability"),
      I("growth"), F("speed", 2), F("direction", 2),
      FL("text_lat", 2), FL("text_lon", 2), FL("arrow_lat", 2), FL("arrow_lon", 2),
      IL("high_fill", 0, 99), IL("med_fill", 0, 99), IL("low_fill", 0, 99),
      IL("line_type", 0, 99), FL("arrow_size", 1),
      F("rotation", 1), F("text_size", 3), I("text_type"), I("turbulence_symbol"),
      IL("font", 0, 99), IL("text_flag", 0, 99), IL("width", 0, 99),
      H(I("text_color")), H(I("line_color")), I("fill_color"), IR("align", -1, 1),
      H(F("lat", 2)), H(F("lon", 2)), I("offset_x"), I("offset_y"), S("text", 255), P(1),
      Z("text_layout", 256), LatLon("number_points", MaxSigmet)>>
VolcanoL ==
    <<S("name", 64), F("code", 1), F("size", 1), I("width"), S("number", 17), S("location", 17),
      S("area", 33), S("origin_station", 17), S("vaac", 33), S("wmo_id", 8),
      S("header_number", 9), S("elevation", 9), S("year", 9), S("advisory_number", 9),
      S("correction", 4), S("info_source", 256), S("additional_source", 256),
      S("aviation_color", 16), S("details", 256), S("obs_date", 16), S("obs_time", 16),
      S("obs_ash", 1024), S("forecast_6hr", 1024), S("forecast_12hr", 1024),
      S("forecast_18hr", 1024), S("remarks", 512), S("next_advisory", 128), S("forecaster", 64),
      P(3), F("lat", 2), F("lon", 2), I("offset_x"), I("offset_y")>>
AshL ==
    <<I("subtype"), PCnt("number_points", Pts), F("distance", 2), I("forecast_hour"),
      I("line_type"), I("line_width"), I("side_of_line"), F("speed", 2), S("speeds", 16),
      S("direction", 4), S("flight_level1", 16), S("flight_level2", 16),
      F("rotation", 1), F("text_size", 3), I("text_type"), I("turbulence_symbol"), I("font"),
      I("text_flag"), I("width"), I("text_color"), I("line_color"), I("fill_color"),
      IR("align", -1, 1), F("text_lat", 2), F("text_lon", 2), I("offset_x"), I("offset_y"),
      Z("text", 255), P(1), LatLon("number_points", MaxAsh)>>
GfaL == <<Cnt("number_blocks", 3), PCnt("number_points", Pts), SStrs("blocks", 1024, "number_blocks", 0),
          LatLon("number_points", 0)>>
BarbL ==
    <<I("wind_color"), I("number_wind"), I("width"), F("size", 1), I("wind_type"),
      F("head_size", 1), F("speed", 2), F("direction", 2), F("lat", 2), F("lon", 2),
      I("flight_level_color"), F("text_rotation", 1), F("text_size", 3), I("text_type"),
      I("turbulence_symbol"), I("font"), I("text_flag"), I("text_width"), I("text_color"),
      I("line_color"), I("fill_color"), IR("align", -1, 1), F("text_lat", 2), F("text_lon", 2),
      I("offset_x"), I("offset_y"), S("text", 255), P(1)>>
HashL ==
    <<I("wind_color"), I("number_wind"), I("width"), F("size", 1), I("wind_type"),
      F("head_size", 1), F("speed", 2), F("direction", 2), F("lat", 2), F("lon", 2)>>
JetLineL == <<I("line_color"), PCnt("number_points", Pts), I("line_type"), I("stroke"),
              I("direction"), F("size", 1), I("width"), LatLon("number_points", MaxPoints)>>
JetL == <<Sub("line_attribute", JetLineL), Cnt("number_barbs", 4),
          Rep("barb_attributes", BarbL, "number_barbs", MaxJet),
          Cnt("number_hashes", 4), Rep("hash_attributes", HashL, "number_hashes", MaxJet)>>
TcL == <<S("storm_number", 5), S("issue_status", 2), D("basin", 5, 0, 3), S("advisory_number", 5),
         S("storm_name", 128), D("storm_type", 5, 0, 4), T("valid_time", 21), S("timezone", 4),
         S("forecast_period", 5)>>
TcErrorL == TcL \o <<I("line_color"), I("line_type"), I("fill_color"), I("fill_type"),
                     PCnt("number_points", Pts), LatLon("number_points", 0)>>
TcPointL == <<F("lat", 2), F("lon", 2), S("advisory_date", 50), S("tau", 50), S("max_wind", 50),
              S("wind_gust", 50), S("minimum_pressure", 50), S("development_level", 50),
              S("development_label", 50), S("direction", 50), S("speed", 50),
              S("date_label", 50), S("storm_source", 50), P(2)>>
TcTrackL == TcL \o <<I("line_color"), I("line_type"), PCnt("number_points", 4),
                     Rep("track_points", TcPointL, "number_points", 0)>>
TcBreakL == TcL \o <<I("line_color"), I("line_width"), IR("ww_level", 0, 3),
                     PCnt("number_points", 4),
                     Rep("breakpoints", <<F("lat", 2), F("lon", 2), S("name", 256)>>,
                         "number_points", 0)>>
SgwxL == <<I("subtype"), PCnt("number_points", Pts), F("text_lat", 2), F("text_lon", 2),
           F("arrow_lat", 2), F("arrow_lon", 2), I("line_element"), I("line_type"),
           I("line_width"), F("arrow_size", 1), I("special_symbol"), I("weather_symbol")>>
         \o SpTextInfo("text_")
         \o <<H(F("lat", 2)), H(F("lon", 2)), I("offset_x"), I("offset_y"), S("text", 255), P(1),
              Arr(<<"area_lat", "area_lon">>, "f", 2, "number_points", MaxSgwx)>>
WindL == <<I("number_wind"), I("width"), F("size", 1), I("wind_type"), F("head_size", 1),
           F("speed", 2), F("direction", 2), F("lat", 2), F("lon", 2)>>

(* --- watch boxes, versions 0 to 6 --- *)
Anchor(a) == <<S(a \o "_station", 8), F(a \o "_lat", 2), F(a \o "_lon", 2), I(a \o "_distance"),
               S(a \o "_direction", 4)>>
WatchInfo(v) ==
    <<PCnt("number_points", Pts), I("style"), I("shape")>>
    \o (IF v >= 6 THEN <<IR("marker_type", 0, 24), F("marker_size", 1), I("marker_width")>> ELSE <<>>)
    \o (IF v >= 3 THEN Anchor("anchor0") \o Anchor("anchor1") ELSE <<>>)
    \o <<I("status"), I("number"), S("issue_time", 20), S("expire_time", 20), I("watch_type"),
         I("severity"), S("timezone", 4), S("max_hail", 8), S("max_wind", 8), S("max_tops", 8),
         S("mean_storm_direction", 8), S("mean_storm_speed", 8),
         S("states", IF v >= 4 THEN 80 ELSE 20), S("adjacent_areas", IF v >= 4 THEN 80 ELSE 20),
         S("replacing", 24), S("forecaster", 64), S("filename", 128), I("issue_flag"),
         S("wsm_issue_time", 20), S("wsm_expire_time", 20), S("wsm_reference_direction", 32),
         S("wsm_recent_from_line", 128), S("wsm_md_number", 8), S("wsm_forecaster", 64)>>
WatchL(v) ==
    IF v = 0 THEN
      <<PCnt("number_points", Pts), I("style"), I("watch_type"), I("number"), S("filename", 128),
        I("shape"), LatLon("number_points", 0)>>
    ELSE LET m == IF v >= 5 THEN MaxCounty ELSE MaxCountyOld
             n == "number_counties"
         IN WatchInfo(v)
            \o (IF v >= 2 THEN <<Cnt(n, Pts), I("plot_counties")>> ELSE <<>>)
            \o (IF v \in 2..4 THEN <<Arr(<<"county_status">>, "i", 0, n, m)>> ELSE <<>>)
            \o (IF v >= 4 THEN <<Arr(<<"county_fips">>, "i", 0, n, m)>> ELSE <<>>)
            \o (IF v >= 2 THEN <<Arr(<<"county_lat", "county_lon">>, "f", 2, n, m)>> ELSE <<>>)
            \o <<LatLon("number_points", 0)>>

(* ------------------------------ kinds ------------------------------ *)
K(id, c, ts, v, l, el) == [id |-> id, c |-> c, ts |-> ts, v |-> v, l |-> l, el |-> el]
Kinds ==
    <<K("front", 1, <<2>>, 0, FrontL, "FrontElement"),
      K("symbol", 4, <<5, 10, 11, 12, 13, 14, 15, 16, 19, 25>>, 0, SymbolL, "SymbolElement"),
      K("circle", 12, <<4>>, 0, LineL, "CircleElement"),
      K("line", 3, <<1>>, 0, LineL, "LineElement"),
      K("spline", 3, <<20>>, 0, SpLineL, "SpecialLineElement"),
      K("list", 14, <<34>>, 0, ListL, "ListElement"),
      K("text", 5, <<17, 18>>, 0, TextL, "TextElement"),
      K("sptext", 5, <<21>>, 0, SpTextL, "SpecialTextElement"),
      K("track0", 10, <<26>>, 0, TrackL(0), "TrackElement"),
      K("track1", 10, <<26>>, 0, TrackL(1), "TrackElement"),
      K("track2", 10, <<26>>, 0, TrackL(2), "TrackElement"),
      K("sigmet0", 11, <<27, 28, 29, 30, 31>>, 0, SigmetL(0), "SigmetElement"),
      K("sigmet1", 11, <<27, 28, 29, 30, 31>>, 1, SigmetL(1), "SigmetElement"),
      K("ccf", 11, <<32>>, 0, CcfL, "CollaborativeConvectiveForecastElement"),
      K("volcano", 11, <<35>>, 0, VolcanoL, "VolcanoElement"),
      K("ash", 11, <<36>>, 0, AshL, "AshCloudElement"),
      K("gfa", 15, <<38>>, 0, GfaL, "GraphicalForecastAreaElement"),
      K("jet", 15, <<37>>, 0, JetL, "JetElement"),
      K("tca", 15, <<39>>, 0, <<>>, "TropicalCycloneAdvisoryElement"),
      K("tcerror", 15, <<40>>, 0, TcErrorL, "TropicalCycloneErrorElement"),
      K("tctrack", 15, <<41>>, 0, TcTrackL, "TropicalCycloneTrackElement"),
      K("tcbreak", 15, <<42>>, 0, TcBreakL, "TropicalCycloneBreakPointElement"),
      K("sgwx", 15, <<43>>, 0, SgwxL, "SignificantWeatherElement"),
      K("watch0", 2, <<6>>, 0, WatchL(0), "WatchBoxElement"),
      K("watch1", 2, <<6>>, 1, WatchL(1), "WatchBoxElement"),
      K("watch2", 2, <<6>>, 2, WatchL(2), "WatchBoxElement"),
      K("watch3", 2, <<6>>, 3, WatchL(3), "WatchBoxElement"),
      K("watch4", 2, <<6>>, 4, WatchL(4), "WatchBoxElement"),
      K("watch5", 2, <<6>>, 5, WatchL(5), "WatchBoxElement"),
      K("watch6", 2, <<6>>, 6, WatchL(6), "WatchBoxElement"),
      K("wind", 6, <<8, 9, 23, 24>>, 0, WindL, "WindElement")>>
KindIds == {Kinds[i].id : i \in DOMAIN Kinds}
KindOf(id) == Kinds[CHOOSE i \in DOMAIN Kinds : Kinds[i].id = id]
=============================================================================
