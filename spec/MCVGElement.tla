----------------------------- MODULE MCVGElement -----------------------------
(* All short histories of assignments to one element.  Checked: every reachable element has    *)
(* only acceptable attribute values, a front's width and code agree, a turbulence symbol fits  *)
(* its text type, flipping twice restores, an assignment changes nothing it does not name      *)
(* (apart from the coupled attribute).  Every history is replayed against the encoder.         *)
EXTENDS VGElement, Json, IOUtils
CONSTANTS KIND, MAXLEN
A(a, t, v) == [a |-> a, t |-> t, v |-> v]
Ops ==
    CASE KIND = "front" ->
           <<A("front_code", "i", 0), A("front_code", "i", 7), A("front_code", "i", 425),
             A("front_code", "i", 999), A("front_code", "i", 1000), A("front_code", "f", 20500),
             A("width", "i", 1), A("width", "i", 8), A("width", "i", 0), A("width", "i", 9),
             A("pip_direction", "i", -1), A("pip_direction", "i", 0), A("flip", "i", 0)>>
      [] KIND = "sptext" ->
           <<A("text_type", "i", 0), A("text_type", "i", 7), A("text_type", "i", 9),
             A("text_type", "i", 12), A("text_type", "i", 17), A("turbulence_symbol", "i", 3),
             A("turbulence_symbol", "i", 8), A("turbulence_symbol", "i", 9),
             A("turbulence_symbol", "i", 10), A("turbulence_symbol", "i", 11), A("turbulence_symbol", "i", -1)>>
      [] KIND = "spline" ->
           <<A("line_type", "i", 3), A("line_type", "i", 24), A("line_type", "i", 27),
             A("direction", "i", -1), A("direction", "i", 1), A("direction", "i", 0),
             A("flip", "i", 0), A("size", "f", 500), A("size", "nan", 0), A("width", "i", 10)>>
      [] KIND = "line" ->
           <<A("closed", "i", 1), A("closed", "i", 2), A("filled", "i", 8), A("filled", "i", 9),
             A("smooth", "i", 2), A("smooth", "i", 3), A("line_type", "i", 99),
             A("line_type", "i", 100), A("major_color", "i", 32), A("minor_color", "i", 33)>>
Args0 ==
    CASE KIND = "front" -> [front_code |-> Num1(220), major_color |-> Num1(2)]
      [] KIND = "sptext" -> [text_color |-> Num1(3)]
      [] OTHER -> [color |-> Num1(4), line_type |-> Num1(5), closed |-> Num1(0)]
VARIABLES st, hist
vars == <<st, hist>>
V(o) == [t |-> o.t, v |-> o.v]
Step(s, o) ==
    IF o.a = "flip" THEN Flip(KIND, s)
    ELSE IF Accepts(KIND, s, o.a, V(o)) = "no" THEN s ELSE Assign(KIND, s, o.a, V(o))
Init == st = New(KIND, Args0) /\ hist = <<>>
Next == /\ Len(hist) < MAXLEN
        /\ \E i \in DOMAIN Ops : hist' = Append(hist, i) /\ st' = Step(st, Ops[i])
Acceptable == \A a \in Attrs(KIND) : ~(KIND = "front" /\ a = "width") =>
    IF Value(KIND, a, [t |-> "f", v |-> 7000]) = 7000
    THEN Accepts(KIND, st, a, [t |-> "f", v |-> st[a]]) = "yes"
    ELSE Accepts(KIND, st, a, Num1(st[a])) = "yes"
FrontAgrees == KIND = "front" => st.width = Tens(st.front_code)
TurbulenceFits == KIND = "sptext" =>
    st.turbulence_symbol \in 0..(IF st.text_type \in {7, 9} THEN 8 ELSE 10)
FlipTwice == KIND \in {"front", "spline"} => Flip(KIND, Flip(KIND, st)) = st
Coupled(a) == CASE a \in {"front_code", "width"} /\ KIND = "front" -> {"front_code", "width"}
                [] a = "text_type" -> {"text_type", "turbulence_symbol"}
                [] a = "flip" -> {FlipAttr(KIND)}
                [] OTHER -> {a}
Frame == [][\A o \in {Ops[hist'[Len(hist')]]} :
              \A a \in Attrs(KIND) : a \notin Coupled(o.a) => st'[a] = st[a]]_vars
Hists == UNION {[1..n -> DOMAIN Ops] : n \in 1..MAXLEN}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({[i \in DOMAIN h |-> Ops[h[i]]] : h \in Hists}))
=============================================================================
