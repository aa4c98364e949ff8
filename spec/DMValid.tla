------------------------------- MODULE DMValid -------------------------------
(* Which calls the writers accept, and which files the readers interpret.  A
   verdict is "ok" (must be accepted), "no" (must be refused) or "free" (the
   documentation does not decide).  Arguments are records [ty, ...] of their
   type and, where it matters, their text, shape or value.                     *)
EXTENDS DMSession

MAXPARM == 44
MAXLEV  == 500
All(vs) == IF \E i \in 1..Len(vs) : vs[i] = "no" THEN "no"
           ELSE IF \E i \in 1..Len(vs) : vs[i] = "free" THEN "free" ELSE "ok"
Is(b) == IF b THEN "ok" ELSE "no"

(* ------------------------------ dates ------------------------------------------ *)
IsDig(x) == x >= 48 /\ x <= 57
Digits(s) == \A i \in 1..Len(s) : IsDig(s[i])
NumOf(s) == FoldLeft(LAMBDA a, x : 10 * a + (x - 48), 0, s)
Field(s, i, n) == NumOf(SubSeq(s, i, i + n - 1))
\* YYYYmmddHHMM
Stamp(s) == /\ Len(s) = 12 /\ Digits(s)
            /\ ValidDate(Field(s, 1, 4), Field(s, 5, 2), Field(s, 7, 2))
            /\ Field(s, 1, 4) >= 1 /\ Field(s, 9, 2) < 24 /\ Field(s, 11, 2) < 60
StampTime(s) == AbsMin(<<Field(s, 1, 4), Field(s, 5, 2), Field(s, 7, 2), Field(s, 9, 2), Field(s, 11, 2)>>)
\* years that two digits tell apart
InYears(s) == Field(s, 1, 4) >= 1969 /\ Field(s, 1, 4) <= 2068
TypeOf(x) == CASE x = 65 -> 0 [] x = 70 -> 1 [] x = 86 -> 1 [] x = 71 -> 2 [] x = 73 -> 3 [] OTHER -> -1
Letters(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : TypeOf(s[i]) >= 0)

StampV(s) == IF ~ Stamp(s) THEN "no" ELSE IF ~ InYears(s) THEN "free" ELSE "ok"
\* grids: a stamp, or a stamp, a type and nothing, hhh or hhhmm
GridDate(s0) ==
  LET s == Up(s0)  ls == Letters(s) IN
  IF Len(ls) = 0 THEN StampV(s)
  ELSE IF Len(ls) > 1 THEN "no"
  ELSE LET i == SubSeq(s, 1, ls[1] - 1)  f == Drop(s, ls[1]) IN
       All(<<StampV(i), IF ~ Digits(f) \/ Len(f) > 5 THEN "no"
                        ELSE IF Len(f) \in {0, 3, 5} THEN "ok" ELSE "free">>)
GridDateType(w) ==          \* type of an acceptable date argument
  IF w.ty # "str" THEN 0
  ELSE LET s == Up(w.s)  ls == Letters(s) IN IF ls = <<>> THEN 0 ELSE TypeOf(s[ls[1]])
\* soundings: a stamp, or a stamp, F and the forecast hour
SndDate(s0) ==
  LET s == Up(s0)  f == SelectInSeq(s, LAMBDA x : x = 70) IN
  IF f = 0 THEN StampV(s)
  ELSE LET h == Drop(s, f) IN
       All(<<StampV(SubSeq(s, 1, f - 1)), IF h = <<>> \/ ~ Digits(h) THEN "no"
                                        ELSE IF Len(h) > 3 THEN "free" ELSE "ok">>)
DateV(kind, w) ==
  IF w.ty = "datetime" THEN "ok"
  ELSE IF w.ty # "str" THEN "no"
  ELSE IF kind = "grid" THEN GridDate(w.s) ELSE IF kind = "sounding" THEN SndDate(w.s) ELSE StampV(w.s)

(* ------------------------------ grids ------------------------------------------- *)
NumV(x) == IF x.ty \in {"int", "float"} THEN "ok" ELSE IF x.ty = "numpy" THEN "free" ELSE "no"
OptNum(x) == IF x.ty = "none" THEN "ok" ELSE NumV(x)
\* text is kept in words of four bytes, four characters to a word, in UTF-8
NBytes(s) == FoldLeft(LAMBDA a, x : a + (IF x < 128 THEN 1 ELSE IF x < 2048 THEN 2 ELSE IF x < 65536 THEN 3 ELSE 4), 0, s)
WordFits(s) == NBytes(RStrip(s)) <= 4
Fits(s, n) == \A k \in 0..(n - 1) : WordFits(SubSeq(s, 4 * k + 1, Min({4 * k + 4, Len(s)})))
NameV(x) == IF x.ty # "str" \/ Len(x.s) > 12 \/ ~ Fits(x.s, 3) THEN "no" ELSE IF Strip(x.s) = <<>> THEN "free" ELSE "ok"
VertV(x) == IF x.ty = "none" THEN "ok" ELSE IF x.ty # "str" THEN "no"
            ELSE Is(SelectInSeq(VCNAMES, LAMBDA n : n = Up(x.s)) # 0)
\* both times are of one type
SameType(a, b) ==
  IF b.ty = "none" \/ a.ty \notin {"str", "datetime"} \/ b.ty \notin {"str", "datetime"} THEN "ok"
  ELSE IF GridDateType(a) = GridDateType(b) THEN "ok"
  ELSE IF b.ty = "str" /\ Letters(Up(b.s)) # <<>> THEN "no" ELSE "free"
GridAdd(o, x) ==
  All(<<Is(x.grid.ty = "array" /\ x.grid.shape = <<o.ny, o.nx>>), NameV(x.name), VertV(x.vc), NumV(x.l1),
        OptNum(x.l2), DateV("grid", x.t1), IF x.t2.ty = "none" THEN "ok" ELSE DateV("grid", x.t2),
        SameType(x.t1, x.t2)>>)

PROJS == {"merc", "stere", "lcc", "eqc", "ortho", "aeqd", "laea", "gnom"}
OTHERS == {"robin", "moll", "sinu", "aea", "vandg", "goode", "eqdc", "cea", "mill", "poly", "sterea", "latlong"}
GridNew(x) ==
  All(<<IF x.proj \in PROJS THEN "ok" ELSE IF x.proj \in OTHERS \cup {"text", "none"} THEN "no" ELSE "free",
        IF x.xy = 1 THEN Is(Len(x.lon) = 1 /\ Len(x.lat) = 1)
        ELSE Is(Len(x.lon) = 2 /\ Len(x.lat) = 2 /\ x.lon = x.lat)>>)

(* ---------------------------- soundings and reports ------------------------------- *)
\* Latin and Greek letters have capitals 32 places before
Capital(x) == IF (x \in 224..254 /\ x # 247) \/ x \in 945..969 THEN x - 32 ELSE x
Upper(ns) == [i \in 1..Len(ns) |-> LET u == Up(ns[i]) IN [k \in 1..Len(u) |-> Capital(u[k])]]
StnNew(x) ==
  IF x.pack = 1 \/ x.odd = 1 \/ x.ty \notin {"list", "tuple", "array"} \/ Len(x.params) > MAXPARM THEN "no"
  ELSE IF \E i \in 1..Len(x.params) : Len(x.params[i]) > 4 \/ NBytes(x.params[i]) > 4 THEN "no"
  ELSE IF Len(x.params) = 0 \/ (\E i \in 1..Len(x.params) : x.params[i] = <<>> \/ IsDig(x.params[i][1]))
          \/ Cardinality(SeqToSet(Upper(x.params))) # Len(x.params) THEN "free"
  ELSE "ok"
\* d: what the data argument holds, one entry [n, ty, len] per parameter
DataV(o, d) ==
  IF d.ty # "dict" THEN "no"
  ELSE IF SeqToSet(Upper([i \in 1..Len(d.v) |-> d.v[i].n])) # SeqToSet(o.params) THEN "no"
  ELSE IF Len(d.v) # Len(o.params) THEN "free"
  ELSE IF \E i \in 1..Len(d.v) : d.v[i].ty \in {"none", "text"} THEN "no"
  ELSE IF o.kind = "sounding" THEN
    IF \E i \in 1..Len(d.v) : d.v[i].ty = "number" THEN "no"
    ELSE IF \E i, j \in 1..Len(d.v) : d.v[i].len # d.v[j].len THEN "no"
    ELSE IF d.v[1].len > MAXLEV THEN "no"
    ELSE IF d.v[1].len \in {0, MAXLEV} THEN "free" ELSE "ok"
  ELSE IF \E i \in 1..Len(d.v) : d.v[i].ty # "number" THEN (IF \A i \in 1..Len(d.v) : d.v[i].len = 1 THEN "free" ELSE "no")
  ELSE "ok"
\* an identifier has eight characters, a state and a country four; what is longer is not decided
TextV(s, n) == IF ~ Fits(s, n) THEN "no" ELSE IF Len(s) > 4 * n THEN "free" ELSE "ok"
InfoV(kind, i) ==
  IF i.ty = "none" THEN "ok" ELSE IF i.ty # "dict" THEN "no"
  ELSE All(<<Is(i.num \in {"int", "absent", "digits"} /\ i.elev \in {"int", "absent", "float", "digits"}),
             IF i.prio \in {"int", "absent", "digits"} THEN "ok"
             ELSE IF i.prio = "float" \/ kind = "sounding" THEN "free" ELSE "no",
             TextV(i.id, 2), TextV(i.state, 1), TextV(i.country, 1)>>)
StnAdd(o, x) ==
  All(<<DataV(o, x.data), NumV(x.lat), NumV(x.lon), DateV(o.kind, x.t), InfoV(o.kind, x.info)>>)

Verdict(o, x) ==
  CASE x.ev = "new" -> IF x.kind = "grid" THEN GridNew(x) ELSE StnNew(x)
    [] x.ev = "add" -> IF o.kind = "grid" THEN GridAdd(o, x) ELSE StnAdd(o, x)

(* ------------------------------- reading ------------------------------------------- *)
\* records are interpreted when their form is one the reader has a method for; only the
\* records asked for matter
PartKnown(kind, ty) == ty \in (IF kind = "merged" THEN {1, 4} ELSE {1, 3, 4})
PackKnown(ty) == ty \in {0, 1, 3, 4}
ReadV(x) == Is(\A i \in 1..Len(x.types) : IF x.kind = "grid" THEN PackKnown(x.types[i]) ELSE PartKnown(x.kind, x.types[i]))
GEMPROJS == {"MER", "NPS", "SPS", "LCC", "SCC", "CED", "MCD", "NOR", "SOR", "STR", "AED", "ORT", "LEA", "GNO"}
OpenV(x) == IF x.proj \in GEMPROJS THEN "ok" ELSE IF x.proj \in {"TVM", "UTM"} THEN "free" ELSE "no"
=============================================================================
