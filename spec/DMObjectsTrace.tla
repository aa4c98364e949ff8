---------------------------- MODULE DMObjectsTrace ----------------------------
(* Validates the form of listings (event fields) and returned objects (event
   objects) of a file given by its words (event open) against DMObjects.        *)
EXTENDS DMObjects, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M, bad
vars == <<l, M, bad>>
Init == l = 1 /\ M = <<>> /\ bad = <<>>

c(b, s) == IF b THEN <<>> ELSE << "G25:" \o s >>
AsSets(o) == [o EXCEPT !.dims = SeqToSet(@), !.attrs = SeqToSet(@)]
Fails(e) ==
  IF e.ev = "open" THEN c(e.out = "ok", "open")
  ELSE IF e.ev = "fields" THEN
    c(e.out = "ok" /\ Len(e.res) = M.n /\ \A i \in 1..Len(e.res) : e.res[i] = ListFields(M.kind), "listing-fields")
  ELSE IF e.out # "ok" THEN c(FALSE, "objects")
  ELSE IF Len(e.res) # Len(M.xs) THEN c(FALSE, "number")
  ELSE IF M.kind = "grid" THEN c(\A i \in 1..Len(M.xs) : GridFormOK(M.xs[i], e.res[i]), "grid")
  ELSE IF M.kind = "sounding" THEN
    c(\A i \in 1..Len(M.xs) : SndFormOK(M.D, M.xs[i], AsSets(e.res[i])), "sounding")
    \o c(\A i \in 1..Len(M.xs) : SndAttrsOK(M.D, M.xs[i], AsSets(e.res[i])), "sounding-attributes")
    \o c(\A i \in 1..Len(M.xs) : SndCodesOK(M.xs[i], e.res[i]), "sounding-text")
  ELSE c(\A i \in 1..Len(M.xs) : SfcFormOK(M.xs[i], [e.res[i] EXCEPT !.keys = SeqToSet(@)]), "report")
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} :
     /\ \E fs \in {Fails(e)} : bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
     /\ \E m \in {IF e.ev = "open" THEN Forms(e) ELSE M} : M' = m
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
