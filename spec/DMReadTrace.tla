------------------------------ MODULE DMReadTrace ------------------------------
(* Validates recorded reading sessions against DMReader.  An open event gives the
   file's words; its meaning is the state every later event is judged against.  *)
EXTENDS DMReader, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M, bad
vars == <<l, M, bad>>
Init == l = 1 /\ M = <<>> /\ bad = <<>>

c(b, e, s) == IF b THEN <<>> ELSE <<e.pid \o ":" \o s>>
Fails(e) ==
  IF e.ev = "open" THEN c(e.out = "ok", e, "open")
  ELSE c(e.same = 1, e, "argument-modified") \o
    (IF e.ev = "list" THEN c(ListingOK(M, e), e, "listing")
     ELSE IF e.ev = "query" THEN c(QueryOK(M, e), e, IF e.filt = <<>> THEN "records" ELSE "query")
          \* files with the same contents give the same results
          \o c(M.opaque = 0 \/ e.filt # <<>> \/ M.prev = <<>> \/ M.prev[1] = e.res, e, "layout-dependent")
     ELSE IF e.ev = "nearest" THEN c(NearestOK(M, e), e, "nearest")
     ELSE <<>>)
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]  fs == Fails(e) IN
     /\ bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
     /\ M' = IF e.ev = "open"
             THEN IF e.again = 0 THEN Meaning(e)
                  ELSE [Meaning(e) EXCEPT !.prev = M.prev]
             ELSE IF e.ev = "query" /\ e.filt = <<>> /\ M.prev = <<>> THEN [M EXCEPT !.prev = <<e.res>>]
             ELSE M
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
