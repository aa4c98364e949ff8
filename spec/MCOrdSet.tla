-------------------------------- MODULE MCOrdSet --------------------------------
(* All short histories on two ordered sets A and B over a small universe; operands are the      *)
(* other set, the set itself or a literal.  Checked: no duplicates, elements that stay keep     *)
(* their relative order, looking changes nothing, in-place operators agree with set algebra.    *)
EXTENDS OrdSet, Json, IOUtils
CONSTANTS DEPTH, UNIV
VARIABLES sets, last, depth
vars == <<sets, last, depth>>
Lit(q) == [n |-> "", q |-> q]
Set(n) == [n |-> n, q |-> <<>>]
Lits == {Lit(<<>>), Lit(<<1>>), Lit(<<2, 1>>), Lit(<<1, 2, 2, 1>>), Lit(<<3, 1>>)}
Elementwise == {"add", "discard", "remove", "contains"}
Inplace == {"ior", "iand", "isub", "ixor"}
Plain == {"pop", "clear"}
Op(op, x, w) == [op |-> op, x |-> x, w |-> w]
\* w: the operand: one of the sets or a literal's elements
Ops == {Op(op, x, Lit(<<>>)) : op \in Elementwise, x \in UNIV} \cup {Op(op, 0, Lit(<<>>)) : op \in Plain}
       \cup {Op(op, 0, w) : op \in Inplace \cup {"eq", "or", "xor", "sub", "and"}, w \in Lits}
       \cup {Op(op, 0, Set(n)) : op \in Inplace \cup {"eq", "le", "rsub"}, n \in {"A", "B"}}
Operand(w) == IF w.n # "" THEN sets[w.n] ELSE w.q
Full(o) == [op |-> o.op, x |-> o.x, o |-> Operand(o.w), k |-> IF o.w.n # "" THEN "ord" ELSE "seq"]
Init == sets = [A |-> <<2, 1>>, B |-> <<>>] /\ depth = 0 /\ last = [op |-> "none", b |-> <<>>, a |-> <<>>, o |-> <<>>, out |-> "none"]
Next == /\ depth < DEPTH
        /\ \E n \in {"A", "B"}, o \in Ops : \E x \in Outcomes(sets[n], Full(o)) :
             /\ sets' = [sets EXCEPT ![n] = x.s]
             /\ last' = [op |-> o.op, b |-> sets[n], a |-> x.s, o |-> Operand(o.w), out |-> x.out]
        /\ depth' = depth + 1
Distinct == \A n \in DOMAIN sets : Len(sets[n]) = Cardinality(Els(sets[n]))
KeepOrder == LET b == last.b a == last.a IN
    SelectSeq(b, LAMBDA x : x \in Els(a)) = SelectSeq(a, LAMBDA x : x \in Els(b))
Looks == {"contains", "eq", "le", "or", "xor", "sub", "and", "rsub"}
LookKeeps == last.op \in Looks \/ last.out = "err" => last.a = last.b
Agree == LET b == Els(last.b) a == Els(last.a) o == Els(last.o) IN
    /\ last.op = "ior" => a = Algebra("or", b, o)
    /\ last.op = "iand" => a = Algebra("and", b, o)
    /\ last.op = "isub" => a = Algebra("sub", b, o)
    /\ last.op = "ixor" => a = Algebra("xor", b, o)
OpSeq == SetToSeq(Ops)
ASSUME JsonSerialize(IOEnv.OUT, OpSeq)
=============================================================================
