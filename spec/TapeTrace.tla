------------------------------- MODULE TapeTrace -------------------------------
(* Validates recorded operations on a buffer.  Besides its result, every event tells what can   *)
(* be seen of the buffer afterwards: the bytes that follow, its length, the distances to marks. *)
EXTENDS Tape, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ts, bad
vars == <<l, ts, bad>>
\* ts: the tapes that agree with everything seen so far
Init == l = 1 /\ ts = {NoTape} /\ bad = <<>>
Seen(x, e) ==
    /\ e.rest = Rest(x) /\ e.length = Len(x.data) /\ e.all = x.data
    /\ e.offs = [i \in DOMAIN x.marks |-> x.pos - x.marks[i]]
All(e) == UNION {Outcomes(t, e) : t \in ts}
Fits(e) == {x \in All(e) : e.out = x.out /\ e.r = x.r /\ Seen(x.t, e)}
Why(e) ==
    LET R == {x \in All(e) : e.out = x.out} IN
    IF R = {} THEN "T01:" \o e.op \o "-" \o e.out
    ELSE IF \A x \in R : e.r # x.r THEN "T01:" \o e.op \o "-result"
    ELSE "T01:" \o e.op \o "-tape"
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E f \in {Fits(e)} :
       IF f # {} THEN ts' = {x.t : x \in f} /\ UNCHANGED bad
       ELSE /\ bad' = Append(bad, [at |-> l, clause |-> Why(e)])
            \* continue from what should have been
            /\ ts' = {x.t : x \in All(e)}
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
