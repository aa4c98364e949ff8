------------------------------ MODULE MCFailWrite ------------------------------
(* A writer that encodes item after item into memory and then replaces the destination.         *)
(* Checked against After for every short sequence of good and bad items and every destination;  *)
(* at no moment is there anything but the old or the complete new file.                         *)
EXTENDS FailWrite, Json, IOUtils
CONSTANT MAXLEN
VARIABLES items, before, dest, buf, i, phase
vars == <<items, before, dest, buf, i, phase>>
Contents == UNION {[1..n -> BOOLEAN] : n \in 0..MAXLEN}
Before == {Absent, "old", "junk"}
Init == /\ items \in Contents /\ before \in Before /\ dest = before /\ buf = <<>> /\ i = 1
        /\ phase = "encoding"
Encode == /\ phase = "encoding" /\ i <= Len(items)
          /\ IF items[i] THEN buf' = Append(buf, i) /\ i' = i + 1 /\ UNCHANGED phase
             ELSE phase' = "raised" /\ UNCHANGED <<buf, i>>
          /\ UNCHANGED <<items, before, dest>>
Commit == /\ phase = "encoding" /\ i > Len(items)
          /\ dest' = "new" /\ phase' = "done" /\ UNCHANGED <<items, before, buf, i>>
Next == Encode \/ Commit
Whole == dest = "new" => Len(buf) = Len(items)
Kept == phase # "done" => dest = before
Agree == phase \in {"raised", "done"} => dest = After(items, before, "new")
Only == [][dest' # dest => phase' = "done"]_vars
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({[items |-> s, before |-> b] : s \in Contents, b \in Before}))
=============================================================================
