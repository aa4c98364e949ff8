---------------------------- MODULE DMValidTrace ----------------------------
(* Validates which calls were accepted and refused against DMValid: new makes
   the object the following adds go to; open and read are what a reader did
   with a file that holds a projection or records of the given types.          *)
EXTENDS DMValid, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, o, bad
vars == <<l, o, bad>>
Init == l = 1 /\ o = <<>> /\ bad = <<>>
Fails(e) ==
  LET v == IF e.ev = "read" THEN ReadV(e) ELSE IF e.ev = "open" THEN OpenV(e) ELSE Verdict(o, e) IN
  IF e.out = "timeout" THEN << "G26:hang" >>
  ELSE IF v = "ok" /\ e.out # "ok" THEN << "G26:" \o e.ev \o "-refused" >>
  ELSE IF v = "no" /\ e.out = "ok" THEN << "G26:" \o e.ev \o "-accepted" >>
  ELSE <<>>
GridObj(e) ==
  IF GridNew(e) = "no" THEN [kind |-> "grid", nx |-> 0, ny |-> 0]
  ELSE [kind |-> "grid", nx |-> IF e.xy = 1 THEN e.lon[1] ELSE e.lon[2],
        ny |-> e.lat[1]]
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} :
     /\ \E fs \in {Fails(e)} : bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
     /\ o' = IF e.ev # "new" THEN o
             ELSE IF e.kind = "grid" THEN GridObj(e)
             ELSE [kind |-> e.kind, params |-> Upper(e.params)]
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
