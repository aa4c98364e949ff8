----------------------------- MODULE VGGroupTrace -----------------------------
(* Validates recorded adds to groups: every event shows all groups afterwards. *)
EXTENDS VGGroup, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, gs, bad
vars == <<l, gs, bad>>
Init == l = 1 /\ gs = <<>> /\ bad = <<>>
c(b, s) == IF b THEN <<>> ELSE << "V07:" \o s >>
After(s, e) == [s EXCEPT ![e.g] = Put(@, e)]
Fails(s, e) ==
  LET a == After(s, e) IN
  c((e.out = "ok") = Fits(s[e.g], e), IF e.out = "ok" THEN "accepted" ELSE "refused")
  \o c(\A i \in 1..Len(a) : e.seen[i] = Seen(a[i]), "group")
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E s \in {IF Trace[l].first = 1 THEN <<Empty, Empty>> ELSE gs} :
     /\ \E fs \in {Fails(s, e)} : bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
     /\ gs' = After(s, e)
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
