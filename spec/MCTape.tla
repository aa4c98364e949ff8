-------------------------------- MODULE MCTape --------------------------------
(* All short histories of operations on a short tape.  Checked: reading moves over exactly the  *)
(* bytes it returns, what fails moves nothing, looking changes nothing, marks stay where they   *)
(* were set, the data before a mark survives a splice there, packing and unpacking are inverse. *)
EXTENDS Tape, Json, IOUtils
CONSTANT MAXLEN
O(op, n, m) == [op |-> op, n |-> n, m |-> m, z |-> 1, e |-> "<", g |-> 1, b |-> <<>>, lay |-> <<>>]
Fld(n, f, z, k) == [n |-> n, f |-> f, z |-> z, k |-> k]
Lay == <<Fld("a", "i", 1, ""), Fld("", "x", 1, ""), Fld("b", "u", 2, "twice")>>
Ops == <<O("read", 2, 0), O("read", -1, 0), O("get_next", 3, 0), O("skip", 1, 0), O("skip", 4, 0),
         O("mark", 0, 0), O("jump", 0, 1), O("jump", 1, 1), O("jump", 0, 2), O("offset_from", 0, 1),
         [O("splice", 0, 1) EXCEPT !.b = <<201, 7>>], O("truncate", 0, 0), O("truncate", 2, 0),
         O("read_ascii", 2, 0), [O("read_int", 2, 0) EXCEPT !.e = ">"],
         [O("read_binary", 1, 0) EXCEPT !.z = 2], [O("read_array", 1, 0) EXCEPT !.z = 2, !.e = ">"],
         [O("read_func", 2, 0) EXCEPT !.g = 0], [O("read_struct", 0, 0) EXCEPT !.lay = Lay],
         O("reset", 0, 0), O("clear_marks", 0, 0), O("at_end", 0, 0), O("check_remains", 3, 0)>>
Tape0 == [data |-> <<65, 66, 200, 67, 1>>, pos |-> 0, marks |-> <<0>>]
VARIABLES t, last, depth
vars == <<t, last, depth>>
Init == t = Tape0 /\ last = [o |-> Ops[1], p |-> Tape0, x |-> [out |-> "none", r |-> <<>>, t |-> Tape0]] /\ depth = 0
Next == /\ depth < MAXLEN
        /\ \E i \in DOMAIN Ops : \E x \in Outcomes(t, Ops[i]) :
             t' = x.t /\ last' = [o |-> Ops[i], p |-> t, x |-> x] /\ depth' = depth + 1
Looks == {"get_next", "offset_from", "at_end", "check_remains"}
FailKeeps == last.x.out = "err" => t = last.p
LookKeeps == last.o.op \in Looks => t = last.p \/ last.x.out = "none"
ReadMoves == (last.x.out = "ok" /\ last.o.op \in {"read", "read_ascii", "read_func"}) =>
    /\ t.data = last.p.data
    /\ t.pos = last.p.pos + Len(last.x.r) \/ (last.o.op = "read_func" /\ Remaining(t) = 0)
    /\ \A i \in DOMAIN last.x.r : last.x.r[i] = t.data[last.p.pos + i]
MarksStay == \A i \in DOMAIN t.marks :
    i <= Len(last.p.marks) /\ last.o.op \notin {"reset", "clear_marks"} /\ last.x.out # "none" => t.marks[i] = last.p.marks[i]
SpliceKeeps == (last.o.op = "splice" /\ last.x.out = "ok") =>
    /\ t.pos = last.p.marks[1]
    /\ \A i \in 1..t.pos : i <= Len(last.p.data) => t.data[i] = last.p.data[i]
NonNegative == t.pos >= 0
\* packing then unpacking gives the values back, for layouts without conversions
Fields == {Fld("a", "i", 1, ""), Fld("", "x", 2, ""), Fld("b", "u", 2, ""), Fld("c", "s", 2, ""), Fld("d", "i", 4, "")}
Vals == [a |-> <<-3>>, b |-> <<40000>>, c |-> <<9, 250>>, d |-> <<-70000>>]
PackUnpack == \A f \in Fields, g \in Fields, h \in Fields, e \in {"<", ">"} :
    LET lay == <<f, g, h>>
        ns == Named(lay)
    IN /\ Unpack(lay, e, PackBytes(lay, e, Vals)) = [i \in DOMAIN ns |-> Vals[ns[i].n]]
       /\ Len(PackBytes(lay, e, Vals)) = SizeOf(lay)
ASSUME PackUnpack
Hists == UNION {[1..n -> DOMAIN Ops] : n \in 1..MAXLEN}
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq({[i \in DOMAIN h |-> Ops[h[i]]] : h \in Hists}))
=============================================================================
