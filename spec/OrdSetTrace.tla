------------------------------ MODULE OrdSetTrace ------------------------------
(* Validates recorded operations on ordered sets: after every operation all sets are listed.   *)
EXTENDS OrdSet, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sets, bad
vars == <<l, sets, bad>>
None == [A |-> <<>>, B |-> <<>>, C |-> <<>>]
Init == l = 1 /\ sets = None /\ bad = <<>>
Clause(e, s) ==
    IF \E x \in {"A", "B", "C"} \ {e.s} : e.after[x] # s[x] THEN "T02:" \o e.op \o "-other-set"
    ELSE IF Len(e.size) # 3 \/ \E i \in 1..3 : e.size[i] # Len(e.after[<<"A", "B", "C">>[i]]) THEN "T02:len"
    ELSE IF May(s[e.s], e, e.out, e.r, e.after[e.s]) THEN ""
    ELSE IF e.after[e.s] # s[e.s] /\ (e.op \in Algebras \cup Compares \cup {"eq", "ne", "contains"}) THEN "T02:" \o e.op \o "-changes"
    ELSE IF e.out # "ok" THEN "T02:" \o e.op \o "-error"
    ELSE "T02:" \o e.op
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E s \in {IF Trace[l].first = 1 THEN None ELSE sets} : \E c \in {Clause(e, s)} :
       /\ bad' = IF c = "" THEN bad ELSE Append(bad, [at |-> l, clause |-> c])
       /\ sets' = e.after
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
