----------------------------- MODULE MCVGFrame -----------------------------
(* Reading as a machine: a cursor visits header after header, each record moves it by the      *)
(* size in its header, and the first header that is too short or not valid ends the file.      *)
(* Checked against the declarative meaning (Elements) for all short sequences of kinds of      *)
(* records; every sequence is then replayed against the reader.                                *)
EXTENDS VGMeaning, Json, IOUtils
CONSTANT MAXLEN
\* kinds of records; size: bytes stored, says: bytes according to the header
Known == {"front", "wind", "text", "symbol", "tca", "slack", "deleted"}
Other == {"skip", "version", "header"}
Ends == {"cut", "delete", "type", "class", "major", "minor", "size0", "size39", "negative",
         "oversize", "zeros"}
Alphabet == IF MAXLEN > 2 THEN {"front", "text", "slack", "skip", "version", "cut", "size0", "bad"}
            ELSE Known \cup Other \cup Ends
Good(x) == x \in Known \cup Other
Hdr(x) == [delete |-> IF x = "delete" THEN 2 ELSE IF x = "deleted" THEN 1 ELSE 0,
           vg_type |-> IF x = "type" THEN 3 ELSE 5, vg_class |-> IF x = "class" THEN 17 ELSE 4,
           major_color |-> IF x = "major" THEN 33 ELSE 1, minor_color |-> IF x = "minor" THEN -1 ELSE 1,
           record_size |-> CASE x \in {"size0", "zeros"} -> 0 [] x = "size39" -> 39
                             [] x = "negative" -> -40 [] x = "oversize" -> 99999
                             [] x = "bad" -> 0 [] x = "slack" -> 120 [] OTHER -> 80]
Size(x) == IF x = "cut" THEN 50 ELSE IF x = "slack" THEN 120 ELSE 80
IdOf(x) == IF x = "header" THEN "fileheader" ELSE IF x \in Other THEN "skip" ELSE "symbol"
VARIABLES seq, pos, at, out, run
vars == <<seq, pos, at, out, run>>
Total(s) == Sum([i \in DOMAIN s |-> Size(s[i])])
Left(s, i) == Total(SubSeq(s, i, Len(s)))
Recs(s) == [i \in DOMAIN s |-> [id |-> IdOf(s[i]), hdr |-> Hdr(s[i]), left |-> Left(s, i), k |-> i]]
\* "cut" only makes sense as the last thing in a file
Seqs == UNION {[1..n -> Alphabet] : n \in 1..MAXLEN}
OKSeq(s) == \A i \in DOMAIN s : s[i] = "cut" => i = Len(s)
Init == seq \in {s \in Seqs : OKSeq(s)} /\ pos = 0 /\ at = 1 /\ out = <<>> /\ run = TRUE
Next == /\ run
        /\ \E left \in {Total(seq) - pos} :
             IF left < HdrSize \/ at > Len(seq) THEN run' = FALSE /\ UNCHANGED <<seq, pos, at, out>>
             ELSE IF ~ValidHeader(Hdr(seq[at]), left) THEN run' = FALSE /\ UNCHANGED <<seq, pos, at, out>>
             ELSE /\ pos' = pos + Hdr(seq[at]).record_size
                  /\ at' = at + 1
                  /\ out' = IF IdOf(seq[at]) \in KindIds THEN Append(out, at) ELSE out
                  /\ UNCHANGED <<seq, run>>
Agree == ~run => out = [i \in DOMAIN Elements(Recs(seq)) |-> Elements(Recs(seq))[i].k]
\* the cursor is always at the start of a record
InStep == at <= Len(seq) => pos = Total(seq) - Left(seq, at)
Progress == [][pos' > pos \/ run' = FALSE]_vars
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({s \in Seqs : OKSeq(s)}))
=============================================================================
