--------------------------------- MODULE Tape ---------------------------------
(* A byte tape: bytes, a position and marks, and named structures on it.                       *)
(* An operation is a record; Outcomes gives what it may do: [out, r (result), t (tape after)]. *)
(* n = -1 stands for "up to the end".                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoTape == [data |-> <<>>, pos |-> 0, marks |-> <<>>]
Lesser(a, b) == IF a < b THEN a ELSE b
Remaining(t) == IF t.pos >= Len(t.data) THEN 0 ELSE Len(t.data) - t.pos
Rest(t) == SubSeq(t.data, t.pos + 1, Len(t.data))
Following(t, n) == IF n < 0 THEN Rest(t) ELSE SubSeq(t.data, t.pos + 1, Lesser(t.pos + n, Len(t.data)))
Move(t, n) == [t EXCEPT !.pos = @ + n]

(* ------------------------------ numbers ------------------------------ *)
Pow256(k) == CASE k = 0 -> 1 [] k = 1 -> 256 [] k = 2 -> 65536 [] OTHER -> 16777216
\* least significant byte first; four bytes are always signed here
NumOf(b, signed) ==
    LET n == Len(b)
        top == IF n = 0 THEN 0
               ELSE IF signed /\ b[n] >= 128 THEN b[n] - 256 ELSE b[n]
    IN IF n = 0 THEN 0
       ELSE FoldLeft(LAMBDA a, i : a + b[i] * Pow256(i - 1), top * Pow256(n - 1), [i \in 1..(n - 1) |-> i])
Order(b, e) == IF e = ">" THEN Reverse(b) ELSE b
Number(b, e, signed) == NumOf(Order(b, e), signed)
BytesOf(v, n, e) == Order([i \in 1..n |-> (v \div Pow256(i - 1)) % 256], e)
Chunks(b, z) == [i \in 1..(Len(b) \div z) |-> SubSeq(b, ((i - 1) * z) + 1, i * z)]
Numbers(b, z, e, signed) == [i \in 1..(Len(b) \div z) |-> Number(Chunks(b, z)[i], e, signed)]

(* ------------------------------ named structures ------------------------------ *)
\* a field: [n: name or "" for padding, f: "i" signed "u" unsigned "s" bytes "x" padding,
\*           z: bytes, k: "" or a conversion of what was read: "neg" "twice" "len"]
SizeOf(lay) == FoldLeft(LAMBDA a, i : a + i.z, 0, lay)
Named(lay) == SelectSeq(lay, LAMBDA i : i.n # "")
Convert(k, v) ==
    CASE k = "" -> v [] k = "neg" -> <<-v[1]>> [] k = "twice" -> <<2 * v[1]>>
      [] k = "len" -> <<Len(v)>>
ReadField(i, b, e) ==
    IF i.f = "s" THEN Convert(i.k, b) ELSE Convert(i.k, <<Number(b, e, i.f = "i")>>)
Start(lay, j) == SizeOf(SubSeq(lay, 1, j - 1))
\* values of the named fields in order, each a sequence
Unpack(lay, e, b) ==
    FoldLeft(LAMBDA a, j : IF lay[j].n = "" THEN a
                           ELSE Append(a, ReadField(lay[j], SubSeq(b, Start(lay, j) + 1, Start(lay, j) + lay[j].z), e)),
             <<>>, [j \in DOMAIN lay |-> j])
Fit(b, z) == [i \in 1..z |-> IF i <= Len(b) THEN b[i] ELSE 0]
\* vals: values of the named fields by name
PackBytes(lay, e, vals) ==
    FlattenSeq([j \in DOMAIN lay |->
        IF lay[j].n = "" THEN [i \in 1..lay[j].z |-> 0]
        ELSE IF lay[j].f = "s" THEN Fit(vals[lay[j].n], lay[j].z)
        ELSE BytesOf(vals[lay[j].n][1], lay[j].z, e)])

(* ------------------------------ operations ------------------------------ *)
Ok(r, t) == {[out |-> "ok", r |-> r, t |-> t]}
Err(t) == {[out |-> "err", r |-> <<>>, t |-> t]}
Flag(b) == <<IF b THEN 1 ELSE 0>>
Has(t, m) == m >= 1 /\ m <= Len(t.marks)
Ascii(b) == \A i \in DOMAIN b : b[i] < 128
Outcomes(t, o) ==
    CASE o.op = "new" -> Ok(<<>>, [data |-> o.b, pos |-> 0, marks |-> <<>>])
      [] o.op = "reset" -> Ok(<<>>, [t EXCEPT !.pos = 0, !.marks = <<>>])
      [] o.op = "mark" -> Ok(<<Len(t.marks)>>, [t EXCEPT !.marks = Append(@, t.pos)])
      [] o.op = "clear_marks" -> Ok(<<>>, [t EXCEPT !.marks = <<>>])
      [] o.op = "jump" -> IF Has(t, o.m) THEN Ok(<<>>, [t EXCEPT !.pos = t.marks[o.m] + o.n]) ELSE Err(t)
      [] o.op = "offset_from" -> IF Has(t, o.m) THEN Ok(<<t.pos - t.marks[o.m]>>, t) ELSE Err(t)
      [] o.op = "splice" ->
           IF Has(t, o.m) THEN Ok(<<>>, [t EXCEPT !.pos = t.marks[o.m],
                                                  !.data = SubSeq(@, 1, Lesser(t.marks[o.m], Len(@))) \o o.b])
           ELSE Err(t)
      [] o.op = "skip" -> Ok(<<>>, IF o.n < 0 THEN [t EXCEPT !.pos = Len(t.data)] ELSE Move(t, o.n))
      [] o.op = "read" -> Ok(Following(t, o.n), Move(t, Len(Following(t, o.n))))
      [] o.op = "get_next" -> Ok(Following(t, o.n), t)
      [] o.op = "check_remains" -> Ok(Flag(Remaining(t) = o.n), t)
      [] o.op = "at_end" -> Ok(Flag(Remaining(t) = 0), t)
      [] o.op = "len" -> Ok(<<Len(t.data)>>, t)
      [] o.op = "getitem" -> Ok(SubSeq(t.data, o.n + 1, Lesser(o.m, Len(t.data))), t)
      [] o.op = "truncate" -> Ok(<<>>, [t EXCEPT !.data = SubSeq(@, 1, IF o.n > Len(@) THEN 0 ELSE Len(@) - o.n)])
      [] o.op = "read_ascii" ->
           LET b == Following(t, o.n) IN
           IF Ascii(b) THEN Ok(b, Move(t, Len(b))) ELSE Err(t)
      [] o.op = "read_bytes" -> Ok(Following(t, o.n), Move(t, Len(Following(t, o.n))))
      \* (too few bytes left: either all of them are taken, or the read fails and does not advance)
      [] o.op = "read_int" ->
           LET b == Following(t, o.n) IN
           Ok(<<Number(b, o.e, o.g = 1)>>, Move(t, Len(b))) \cup (IF Len(b) < o.n THEN Err(t) ELSE {})
      [] o.op \in {"read_binary", "read_array"} ->
           LET b == Following(t, o.n * o.z) IN
           IF Len(b) < o.n * o.z THEN Err(t)
           ELSE Ok(Numbers(b, o.z, o.e, o.g = 1), Move(t, Len(b)))
                \cup (IF o.n = 0 THEN Err(t) ELSE {})
      \* a function that succeeds or fails on the next bytes, and returns them; a failing one moves
      \* nothing (past the end the position may or may not be that of the bytes asked for)
      [] o.op = "read_func" ->
           LET b == Following(t, o.n) IN
           IF o.g = 1 THEN Ok(b, Move(t, Len(b))) \cup Ok(b, IF o.n < 0 THEN [t EXCEPT !.pos = Len(t.data)] ELSE Move(t, o.n))
           ELSE Err(t)
      [] o.op = "read_struct" ->
           LET z == SizeOf(o.lay)  b == Following(t, z) IN
           IF Len(b) < z THEN Err(t) ELSE Ok(Unpack(o.lay, o.e, b), Move(t, z))
      \* structures on their own (the tape is not involved)
      [] o.op = "unpack" -> IF Len(o.b) # SizeOf(o.lay) THEN Err(t) ELSE Ok(Unpack(o.lay, o.e, o.b), t)
      [] o.op = "unpack_from" ->
           IF Len(o.b) < o.n + SizeOf(o.lay) THEN Err(t)
           ELSE Ok(Unpack(o.lay, o.e, SubSeq(o.b, o.n + 1, o.n + SizeOf(o.lay))), t)
      [] o.op = "pack" ->
           IF {Named(o.lay)[i].n : i \in DOMAIN Named(o.lay)} # DOMAIN o.vals THEN Err(t)
           ELSE Ok(PackBytes(o.lay, o.e, o.vals), t)
      [] o.op = "size" -> Ok(<<SizeOf(o.lay)>>, t)
=============================================================================
