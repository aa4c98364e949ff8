---------------------------- MODULE FailWriteTrace ----------------------------
(* Validates what writing left behind.  dir0, dir1: everything in the directory of the          *)
(* destination before and after; good: what the whole file holds when written elsewhere.        *)
EXTENDS FailWrite, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
vars == <<l, bad>>
Init == l = 1 /\ bad = <<>>
c(b, s) == IF b THEN <<>> ELSE <<s>>
Items(e) == [i \in DOMAIN e.items |-> e.items[i] = 1]
Fails(e) ==
    CASE e.ev = "write" ->
         \* (contents the specification calls bad may have been made encodable; then nothing raises)
         IF e.out = "err" THEN
              c(e.dir1 = e.dir0, "G19:" \o e.kind \o (IF e.before = Absent THEN "-partial-file" ELSE "-old-file-damaged"))
              \o c(Raises(Items(e)), "G19:" \o e.kind \o "-cannot-write")
         ELSE IF e.out # "ok" THEN <<"G19:" \o e.kind \o "-" \o e.out>>
         ELSE c(e.dest = e.good, "G19:" \o e.kind \o "-incomplete-file")
Next ==
  /\ l <= Len(Trace)
  /\ \E e \in {Trace[l]} : \E fs \in {Fails(e)} :
       bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
  /\ l' = l + 1
WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
