----------------------------- MODULE VGWriteTrace -----------------------------
(* Validates recorded histories of making, changing and writing VGF elements.                  *)
(* Handles of elements are positions in els; files are sequences of handles.                   *)
EXTENDS VGElement, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, els, files, bad
vars == <<l, els, files, bad>>
Init == l = 1 /\ els = <<>> /\ files = <<>> /\ bad = <<>>

c(b, s) == IF b THEN <<>> ELSE <<s>>
Same(kind, want, got) == \A a \in Attrs(kind) : a \in DOMAIN got /\ got[a] = want[a]
\* what no assignment changes: the kind, the place and the text of an element
Fixed(x) == LET b == Bounds(x) IN
            <<0, ClassType(x.kind)[2], ClassType(x.kind)[1], b.min_lat, b.min_lon, b.max_lat, b.max_lon>>
FixedFails(x, got) == c(got.fixed_ = Fixed(x), "V04:fixed-attributes") \o c(got.text_ = (IF x.kind = "sptext" THEN x.text ELSE <<>>), "V04:text")
AsExpected(may, out) == (may = "either" /\ out \in {"ok", "err"}) \/ (may = "yes" /\ out = "ok") \/ (may = "no" /\ out = "err")
\* offered: what was asked for; a wrongly accepted value leaves no expectation behind ("wild")
NewFails(e) ==
    LET may == Worst({ArgsOK(e.kind, e.args), PlaceOK(e.kind, e.nlon, e.nlat), TextOK(e.kind, e.ntext)})
    IN IF ~AsExpected(may, e.out) THEN <<"V04:new-" \o e.kind \o "-" \o may \o "-" \o e.out>>
       ELSE IF e.out = "ok" THEN c(Same(e.kind, New(e.kind, e.args), e.st), "V04:new-" \o e.kind \o "-attributes")
                               \o FixedFails(e, e.st)
       ELSE <<>>
NewEl(e) ==
    LET may == Worst({ArgsOK(e.kind, e.args), PlaceOK(e.kind, e.nlon, e.nlat), TextOK(e.kind, e.ntext)})
        good == e.out = "ok" /\ may # "no"
    IN [kind |-> e.kind, st |-> IF good THEN New(e.kind, e.args) ELSE [none |-> 0],
        stroke |-> IF good THEN StrokeOf(e.kind, e.args) ELSE 1,
        lon |-> e.lon, lat |-> e.lat, text |-> e.text, wild |-> ~good, strokeok |-> TRUE]
SetFails(e) ==
    LET x == els[e.h] IN
    IF x.wild THEN <<>>
    ELSE LET may == Accepts(x.kind, x.st, e.a, e.v) IN
         IF ~AsExpected(may, e.out) THEN <<"V04:set-" \o e.a \o "-" \o may \o "-" \o e.out>>
         ELSE c(Same(x.kind, IF e.out = "ok" THEN Assign(x.kind, x.st, e.a, e.v) ELSE x.st, e.st),
                "V04:set-" \o e.a \o (IF e.out = "ok" THEN "-attributes" ELSE "-not-atomic"))
              \o FixedFails(x, e.st)
SetEl(e) ==
    LET x == els[e.h] IN
    IF x.wild THEN x
    ELSE LET may == Accepts(x.kind, x.st, e.a, e.v) IN
         IF e.out = "ok" /\ may = "no" THEN [x EXCEPT !.wild = TRUE]
         ELSE IF e.out = "ok" /\ ~(e.a = "width" /\ x.kind = "sptext" /\ e.v.t # "i")
              THEN [x EXCEPT !.st = Assign(x.kind, @, e.a, e.v),
                             !.strokeok = @ /\ (e.a # "line_type" \/ x.kind # "spline"
                                                \/ (Iv(e.v) \in Kink) = (x.st.line_type \in Kink))]
         ELSE IF e.out = "ok" THEN [x EXCEPT !.wild = TRUE]
         ELSE x
FlipFails(e) ==
    LET x == els[e.h] IN
    IF x.wild THEN <<>>
    ELSE IF e.out # "ok" THEN <<"V04:flip-" \o e.out>>
    ELSE c(Same(x.kind, Flip(x.kind, x.st), e.st), "V04:flip") \o FixedFails(x, e.st)
FlipEl(e) == LET x == els[e.h] IN IF x.wild THEN x ELSE [x EXCEPT !.st = Flip(x.kind, @)]

Val(attrs, n) == LET i == {j \in DOMAIN attrs : attrs[j].n = n} IN
                 IF i = {} THEN <<-1>> ELSE attrs[CHOOSE j \in i : TRUE].x
Str(attrs, n) == LET i == {j \in DOMAIN attrs : attrs[j].n = n} IN
                 IF i = {} THEN "?" ELSE attrs[CHOOSE j \in i : TRUE].s
ClassName(kind) == IF kind \in {"symbol", "marker"} THEN "SymbolElement" ELSE KindOf(kind).el
ElementFails(x, g) ==
    IF x.wild THEN <<>>
    ELSE c(g.cls = ClassName(x.kind), "V01:kind")
         \o (\* FlattenSeq over attributes, so that each wrong one is named
             LET w == Reported(x) IN
             FlattenSeq([i \in DOMAIN w |->
                IF w[i].n = "stroke" /\ ~x.strokeok THEN <<>>
                ELSE c(Val(g.a, w[i].n) = w[i].x, "V01:" \o x.kind \o "." \o w[i].n)]))
         \o (LET w == ReportedNames(x) IN
             FlattenSeq([i \in DOMAIN w |-> c(Str(g.a, w[i].n) = w[i].s, "V01:" \o x.kind \o "." \o w[i].n)]))
WriteFails(e) ==
    LET hs == files[e.f] IN
    IF \E i \in DOMAIN hs : els[hs[i]].wild THEN <<>>
    ELSE IF e.out # "ok" THEN <<"V01:write-" \o e.out, "V04:write-" \o e.out>>
    ELSE IF e.read # "ok" THEN <<"V01:read-" \o e.read>>
    ELSE IF Len(e.els) # Len(hs) THEN <<"V01:number-of-elements">>
    ELSE c(e.fh = 1, "V01:file-header")
         \o FlattenSeq([i \in DOMAIN hs |-> ElementFails(els[hs[i]], e.els[i])])
Fails(e) ==
    CASE e.ev = "new" -> NewFails(e)
      [] e.ev = "set" -> SetFails(e)
      [] e.ev = "flip" -> FlipFails(e)
      [] e.ev = "file" -> c(e.out = "ok", "V01:file-" \o e.out)
      [] e.ev = "add" -> c(e.out = "ok", "V01:add-" \o e.out)
      [] e.ev = "write" -> WriteFails(e)
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E fs \in {Fails(e)} :
       /\ bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
       /\ els' = CASE e.ev = "new" -> (IF e.first = 1 THEN <<>> ELSE els) \o <<NewEl(e)>>
                   [] e.ev = "set" -> [els EXCEPT ![e.h] = SetEl(e)]
                   [] e.ev = "flip" -> [els EXCEPT ![e.h] = FlipEl(e)]
                   [] OTHER -> els
       /\ files' = CASE e.ev = "new" /\ e.first = 1 -> <<>>
                     [] e.ev = "file" -> Append(files, e.hs)
                     [] e.ev = "add" -> [files EXCEPT ![e.f] = Append(@, e.h)]
                     [] OTHER -> files
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
