------------------------------ MODULE DMMetaTrace ------------------------------
(* Validates what a reader reports of a file's management part (event meta) for a
   file given by its words (event open).                                         *)
EXTENDS DMMeta, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f, M, bad
vars == <<l, f, M, bad>>
Init == l = 1 /\ f = <<>> /\ M = <<>> /\ bad = <<>>

c(b, s) == IF b THEN <<>> ELSE << "G23:" \o s >>
\* named fields: all there, each with its value
Fields(want, got) == \A i \in 1..Len(want) : want[i].n \in DOMAIN got /\ got[want[i].n] = want[i].v
OpenFails(e) ==
  IF e.cut = 1 THEN c(e.out # "timeout" /\ (e.out = "ok" => ~Rejected(e.w)), "accepted-incomplete")
  ELSE IF Rejected(e.w) THEN c(e.out = "err", "accepted-invalid")
  ELSE c(e.out = "ok", "open")
MetaFails(e) ==
  IF e.out # "ok" THEN <<"G23:report">>
  ELSE c(Fields(M.label, e.label), "label") \o c(e.fkeys = M.fkeys, "file-keys")
    \o c(e.hasnav = (IF M.nav = <<>> THEN 0 ELSE 1) /\ Fields(M.nav, e.nav), "navigation-block")
    \o c(e.hasanl = (IF M.anl = <<>> THEN 0 ELSE 1) /\ Fields(M.anl, e.anl), "analysis-block")
    \o c(Fields(M.dm, e.dm) /\ Len(e.free) <= MBLK - 4 /\ e.free = SubSeq(FreeWords(f), 1, Len(e.free)), "data-management")
    \o c(e.rk = M.rk, "row-keys") \o c(e.ck = M.ck, "column-keys")
    \o c(e.parts = M.parts, "parts") \o c(e.params = M.params, "parameters")
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} :
     /\ f' = IF e.ev = "open" THEN e.w ELSE f
     /\ \E m \in {IF e.ev = "open" /\ ~Rejected(e.w) THEN Meta(e.w) ELSE M} : M' = m
     /\ \E fs \in {IF e.ev = "open" THEN OpenFails(e) ELSE MetaFails(e)} :
          bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
