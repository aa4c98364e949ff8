-------------------------------- MODULE MCQuery --------------------------------
(* Query algebra of DMReader on a small listing, over all combinations of at most
   two filters: answers are subsequences in file order, filters intersect and
   commute, value lists are unions, text is case-insensitive, first and last are
   never empty.                                                                   *)
EXTENDS DMReader
VARIABLES f1, f2
K(t, id, num, st) == [t |-> t, lat |-> 100 * num, lon |-> -100 * num, id |-> id, num |-> num, elev |-> 0,
                      st |-> st, co |-> <<85>>, prio |-> 0]
A == <<65>>  B == <<66, 49>>
Ls == << K(100, A, 1, A), K(100, B, 2, A), K(160, A, 1, B), K(220, B, 2, <<>>) >>
T(m) == <<1970, 1, 1, m \div 60, m % 60>>
M == [kind |-> "surface", opaque |-> 0, prev |-> <<>>,
      list |-> [i \in 1..4 |-> [q |-> <<1, i>>, k |-> Ls[i]]],
      recs |-> [i \in 1..4 |-> [q |-> <<1, i>>, x |-> [k |-> Ls[i], sp |-> IF i = 3 THEN 1 ELSE 0]]]]
Filters ==
  {[k |-> "id", v |-> v] : v \in {<<A>>, << <<98, 49>> >>, <<A, B>>, << <<67>> >>}}
  \cup {[k |-> "num", v |-> v] : v \in {<<1>>, <<2>>, <<2, 1>>, <<9>>}}
  \cup {[k |-> "st", v |-> v] : v \in {<<A>>, << <<97>> >>, << <<>> >>}}
  \cup {[k |-> "t", v |-> v] : v \in {<<T(100)>>, <<T(100), T(220)>>, <<T(5)>>}}
  \cup {[k |-> "first", v |-> <<>>], [k |-> "last", v |-> <<>>],
        [k |-> "bbox", v |-> <<-1000, 0, 1000, 1500>>], [k |-> "bbox", v |-> <<-2000, -1000, 0, 2000>>]}
Init == f1 \in Filters /\ f2 \in Filters
Next == UNCHANGED <<f1, f2>>
Qs(fs) == Selected(M, fs)
IsSub(s, t) == \E S \in SUBSET (1..Len(t)) :
   s = SelectSeq(t, LAMBDA x : \E i \in S : t[i] = x)
Algebra ==
  /\ Qs(<<f1, f2>>) = Qs(<<f1>>) \cap Qs(<<f2>>)
  /\ Qs(<<f1, f2>>) = Qs(<<f2, f1>>) /\ Qs(<<f1, f1>>) = Qs(<<f1>>)
  /\ Qs(<<>>) = {M.list[i].q : i \in 1..4}
  /\ f1.k \notin {"bbox", "first", "last"} =>
       Qs(<<f1>>) = UNION {Qs(<<[f1 EXCEPT !.v = <<f1.v[i]>>]>>) : i \in 1..Len(f1.v)}
  /\ f1.k \in {"first", "last"} => Qs(<<f1>>) # {}
Ordered ==
  /\ IsSub(Wanted(M, <<f1>>, 1), M.recs)
  /\ Wanted(M, <<f1>>, 0) = SelectSeq(Wanted(M, <<f1>>, 1), LAMBDA R : R.x.sp = 0)
=============================================================================
