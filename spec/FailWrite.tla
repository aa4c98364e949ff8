------------------------------- MODULE FailWrite -------------------------------
(* Writing a file whose contents may turn out not to be encodable.  The contents are a sequence *)
(* of items; a bad item makes the write raise.  What is at the destination afterwards depends   *)
(* only on whether the write raised.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Absent == "absent"
Raises(items) == \E i \in DOMAIN items : ~items[i]
\* before: what was there; written: the complete file
After(items, before, written) == IF Raises(items) THEN before ELSE written
=============================================================================
