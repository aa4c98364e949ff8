-------------------------------- MODULE VGTrace --------------------------------
(* Validates what the reader did with files whose records are known.  An "open" event gives    *)
(* the records of a file and what was read; later events are queries on the same file.         *)
EXTENDS VGMeaning, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, els, bad
vars == <<l, els, bad>>
Init == l = 1 /\ els = <<>> /\ bad = <<>>

c(b, s) == IF b THEN <<>> ELSE <<s>>
Val(attrs, n) == LET i == {j \in DOMAIN attrs : attrs[j].n = n} IN
                 IF i = {} THEN <<-1>> ELSE attrs[CHOOSE j \in i : TRUE].x
Str(attrs, n) == LET i == {j \in DOMAIN attrs : attrs[j].n = n} IN
                 IF i = {} THEN "?" ELSE attrs[CHOOSE j \in i : TRUE].s
AttrsOK(want, got) == \A i \in DOMAIN want : Val(got, want[i].n) = want[i].x
NamesOK(want, got) == \A i \in DOMAIN want : Str(got, want[i].n) = want[i].s
BodyOK(r, g) == /\ AttrsOK(Expect(r.id, r.hdr, r.val), g.a)
                /\ AttrsOK(DerivedNum(r.id, r.val), g.a)
                /\ NamesOK(Derived(r.id, r.val), g.a)
StatusIsArea(r, g) ==
    /\ r.id \in {"sigmet0", "sigmet1"}
    /\ Val(g.a, "status") = Val(g.a, "area")
    /\ \A x \in {Expect(r.id, r.hdr, r.val)} : \A i \in DOMAIN x :
         x[i].n # "status" => Val(g.a, x[i].n) = x[i].x
HdrOK(r, g) == AttrsOK(HdrExpect(r.hdr), g.a)
FileHdrOK(e) ==
    LET f == FileHeaders(e.recs) IN
    f = <<>> \/ e.fh = <<>> \/
      LET r == f[Len(f)] IN
      /\ AttrsOK(<<At("gempak_version", Txt(Trim(Readable(r.val.version)))),
                   At("notes", Txt(Trim(Readable(r.val.notes))))>>, e.fh)
      /\ AttrsOK(HdrExpect(r.hdr), e.fh)

Judge(e) ==
    LET E == Elements(e.recs) IN
    IF e.out # "ok" THEN <<(IF e.pid = "V02" THEN "V02" ELSE "V03") \o ":reading-" \o e.out>>
    ELSE IF Len(e.els) # Len(E) THEN <<"V02:number-of-elements">>
    ELSE FlattenSeq([i \in DOMAIN E |->
             c(e.els[i].cls = KindOf(E[i].id).el, "V02:kind")
             \o c(HdrOK(E[i], e.els[i]), "V02:header")
             \o c(e.els[i].rp = Printed(e.els[i].cls, E[i].hdr), "V03:printed")
             \o (IF BodyOK(E[i], e.els[i]) THEN <<>>
                 \* (told apart so that this one wrong attribute can be listed as known)
                 ELSE IF StatusIsArea(E[i], e.els[i]) THEN <<"V03:sigmet-status-is-area">>
                 ELSE <<"V03:" \o E[i].id>>)])
         \o c(FileHdrOK(e), "V02:file-header")

IdxOK(e, want) == IF want = <<>> THEN e.none = 1 ELSE e.none = 0 /\ e.idx = want
GroupOK(e, hs) ==
    LET g == GroupsOf(hs, e.t) IN
    IF g = <<>> THEN e.none = 1
    ELSE /\ e.none = 0 /\ Len(e.gs) = Len(g)
         /\ \A k \in DOMAIN g : /\ e.gs[k].num = g[k].num /\ e.gs[k].typ = e.t
                                /\ e.gs[k].idx = g[k].idx /\ e.gs[k].size = Len(g[k].idx)
\* every attribute of every element read appears in the export with its value
JsonFails(e) ==
    IF e.out # "ok" THEN <<"V06:export-" \o e.out>>
    ELSE IF Len(e.els) # Len(els) THEN <<"V06:number-of-elements">>
    ELSE FlattenSeq([i \in DOMAIN els |->
           c(AttrsOK(els[i].a, e.els[i].a), "V06:" \o els[i].cls)])
\* the values of a list attribute, in thousandths
ListVals(x) == {x[2 * i] * 1000 + x[(2 * i) + 1] : i \in 1..(Len(x) \div 2)}
MinOf(q) == CHOOSE m \in q : \A y \in q : m <= y
MaxOf(q) == CHOOSE m \in q : \A y \in q : m >= y
ElementBoundsOK(e) ==
    LET la == Val(els[e.i].a, "lat")  lo == Val(els[e.i].a, "lon")
        Many(x) == x[1] = 3 /\ Len(x) > 3
    IN IF Many(la) /\ Many(lo)
       THEN /\ e.out = "ok"
            /\ e.b = <<MinOf(ListVals(la)), MinOf(ListVals(lo)), MaxOf(ListVals(la)), MaxOf(ListVals(lo))>>
       ELSE e.out = "err"
Fails(e, hs) ==
    CASE e.ev = "open" -> Judge(e)
      [] e.ev = "json" -> JsonFails(e)
      [] e.ev = "element-bounds" -> c(ElementBoundsOK(e), "V05:element-bounds")
      [] e.ev = "close" -> c(e.out = "ok" /\ e.rx = Append(e.x, e.x[1]) /\ e.ry = Append(e.y, e.y[1]),
                             "V03:close-coordinates")
      [] e.ev = "flip" -> c(e.out = "ok" /\ e.rx = Reverse(e.x) /\ e.ry = Reverse(e.y),
                            "V03:flip-coordinates")
      [] e.ev = "filter" /\ e.op \notin {"and", "or"} -> c(e.out = "err", "V05:filter-operation")
      [] e.out # "ok" -> <<"V05:" \o e.ev \o "-" \o e.out>>
      [] e.ev = "has" -> c((e.r = 1) = (GetOf(hs, e.q) # <<>>), "V05:has_" \o e.q)
      [] e.ev = "get" -> c(IdxOK(e, GetOf(hs, e.q)), "V05:get_" \o e.q)
      [] e.ev = "filter" -> c(IdxOK(e, FilterOf(hs, e.c, e.t, e.op)), "V05:filter")
      [] e.ev = "groups" -> c(Len(e.types) = Cardinality(GroupTypes(hs))
                              /\ {e.types[i] : i \in DOMAIN e.types} = GroupTypes(hs), "V05:groups")
      [] e.ev = "group" -> c(GroupOK(e, hs), "V05:get_group")
      [] e.ev = "bounds" -> c(Encloses(e.b, hs), "V05:bounds-enclose")
                            \o c(Tight(e.b, hs), "V05:bounds-tight")
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E hs \in {[i \in DOMAIN els |-> els[i].h]} : \E fs \in {Fails(e, hs)} :
       /\ bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
       /\ els' = IF e.ev = "open" THEN e.els ELSE els
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
