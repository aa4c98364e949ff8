--------------------------------- MODULE OrdSet ---------------------------------
(* Ordered sets: sequences of distinct elements in the order in which they were (last) added.  *)
(* A session has named sets; an operation acts on set o.s with another operand (o.o, a          *)
(* sequence: the elements of the operand in their order).  Outcomes gives what it may do:      *)
(* [out, r (result), s (the set afterwards)].                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Els(s) == {s[i] : i \in DOMAIN s}
Adding(s, x) == IF x \in Els(s) THEN s ELSE Append(s, x)
Dropping(s, X) == SelectSeq(s, LAMBDA y : y \notin X)
AddAll(s, q) == FoldLeft(Adding, s, q)
Flag(b) == <<IF b THEN 1 ELSE 0>>
Ok(r, s) == {[out |-> "ok", r |-> r, s |-> s]}
Err(s) == {[out |-> "err", r |-> <<>>, s |-> s]}
Mixed(s, q) == AddAll(Dropping(s, Els(q)), Dropping(q, Els(s)))

\* operators that give a new set: only its elements are determined, in any order
Algebra(op, a, b) ==
    CASE op = "or" -> a \cup b [] op = "and" -> a \cap b
      [] op = "sub" -> a \ b [] op = "xor" -> (a \ b) \cup (b \ a)
      [] op = "ror" -> a \cup b [] op = "rand" -> a \cap b
      [] op = "rsub" -> b \ a [] op = "rxor" -> (a \ b) \cup (b \ a)
Algebras == {"or", "and", "sub", "xor", "ror", "rand", "rsub", "rxor"}
Compare(op, a, b) ==
    CASE op = "le" -> a \subseteq b [] op = "lt" -> a \subseteq b /\ a # b
      [] op = "ge" -> b \subseteq a [] op = "gt" -> b \subseteq a /\ a # b
      [] op = "isdisjoint" -> a \cap b = {}
Compares == {"le", "lt", "ge", "gt", "isdisjoint"}

\* k: "ord" when the operand is an ordered set itself
Outcomes(s, o) ==
    CASE o.op = "new" -> Ok(<<>>, AddAll(<<>>, o.o))
      [] o.op = "add" -> Ok(<<>>, Adding(s, o.x))
      [] o.op = "discard" -> Ok(<<>>, Dropping(s, {o.x}))
      [] o.op = "remove" -> IF o.x \in Els(s) THEN Ok(<<>>, Dropping(s, {o.x})) ELSE Err(s)
      [] o.op = "pop" -> IF s = <<>> THEN Err(s) ELSE UNION {Ok(<<x>>, Dropping(s, {x})) : x \in Els(s)}
      [] o.op = "clear" -> Ok(<<>>, <<>>)
      [] o.op = "contains" -> Ok(Flag(o.x \in Els(s)), s)
      [] o.op = "ior" -> Ok(<<>>, AddAll(s, o.o))
      [] o.op = "iand" -> Ok(<<>>, Dropping(s, Els(s) \ Els(o.o)))
      [] o.op = "isub" -> Ok(<<>>, Dropping(s, Els(o.o)))
      [] o.op = "ixor" -> Ok(<<>>, Mixed(s, AddAll(<<>>, o.o)))
      [] o.op = "eq" -> Ok(Flag(IF o.k = "ord" THEN s = o.o ELSE Els(s) = Els(o.o)), s)
      [] o.op = "ne" -> Ok(Flag(IF o.k = "ord" THEN s # o.o ELSE Els(s) # Els(o.o)), s)
      [] o.op \in Compares -> Ok(Flag(Compare(o.op, Els(s), Els(o.o))), s)
      [] o.op \in Algebras ->
           UNION {Ok(q, s) : q \in {q \in [1..Cardinality(Algebra(o.op, Els(s), Els(o.o))) -> Algebra(o.op, Els(s), Els(o.o))] :
                                     Els(q) = Algebra(o.op, Els(s), Els(o.o))}}
\* the same, as a predicate (no enumeration of orders)
May(s, o, out, r, after) ==
    IF o.op \in Algebras
    THEN out = "ok" /\ after = s /\ Els(r) = Algebra(o.op, Els(s), Els(o.o)) /\ Len(r) = Cardinality(Els(r))
    ELSE [out |-> out, r |-> r, s |-> after] \in Outcomes(s, o)
=============================================================================
