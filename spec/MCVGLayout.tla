----------------------------- MODULE MCVGLayout -----------------------------
(* The layout tables are sane: values of a record never share bytes, stay inside the record,   *)
(* every stored value is reported under exactly one name, and records of the same kind and     *)
(* counts have the same size whatever their values.                                            *)
EXTENDS VGMeaning
CONSTANT MAXC
VARIABLES k, n
RECURSIVE Gen(_, _, _)
\* a value of a layout: all counts n, all numbers x, all text of one character x
GenIt(it, m, x, a) ==
    CASE it.k = "p" -> a
      [] it.k = "n" -> (it.n :> m) @@ a
      [] it.k \in {"af", "ai"} -> [q \in {it.ns[i] : i \in DOMAIN it.ns} |-> [i \in 1..m |-> x]] @@ a
      [] it.k \in {"as", "az"} -> (it.n :> [i \in 1..m |-> <<65 + x>>]) @@ a
      [] it.k = "r" -> (it.n :> [i \in 1..m |-> Gen(it.sub, m, x)]) @@ a
      [] it.k = "o" -> (it.n :> Gen(it.sub, m, x)) @@ a
      [] it.k \in {"s", "z", "x"} -> (it.n :> <<65 + x>>) @@ a
      [] it.k = "t" -> (it.n :> <<2000 + x, 1, 1, 0, 0>>) @@ a
      [] OTHER -> (it.n :> x) @@ a
Gen(lay, m, x) == FoldLeft(LAMBDA a, it : GenIt(it, m, x, a), <<>>, lay)
Bytes(p) == IF p.k \in {"af", "ai"} THEN 4 * Len(p.v) ELSE p.z
Hdr0 == [closed |-> 0]
Init == k \in DOMAIN Kinds /\ n = -1
Next == n = -1 /\ n' \in 0..MAXC /\ k' = k
Id == Kinds[k].id
Disjoint ==
    n = -1 \/ Id = "tca" \/ \E a \in {Place(Id, Gen(Kinds[k].l, n, 1))} :
      /\ \A i \in DOMAIN a.pl : a.pl[i].o >= 0 /\ a.pl[i].o + Bytes(a.pl[i]) <= a.size
      /\ \A i \in DOMAIN a.pl : \A j \in (i + 1)..Len(a.pl) :
           a.pl[i].o + Bytes(a.pl[i]) <= a.pl[j].o
      /\ a.size % 4 = 0 \/ Id \in {"text", "sptext", "list", "gfa", "track0", "track1", "track2", "tcerror", "tctrack", "tcbreak"}
SameSize == n = -1 \/ Id = "tca" \/ Place(Id, Gen(Kinds[k].l, n, 1)).size = Place(Id, Gen(Kinds[k].l, n, 2)).size
Names(e) == [i \in DOMAIN e |-> e[i].n]
Unambiguous ==
    n = -1 \/ Id = "tca" \/ \E e \in {Expect(Id, Hdr0, Gen(Kinds[k].l, n, 1))} :
      /\ Cardinality({e[i].n : i \in DOMAIN e}) = Len(e)
      /\ {e[i].n : i \in DOMAIN e} \cap {Header[i].n : i \in DOMAIN Header} = {}
\* a different value of one field changes exactly one reported attribute
OneToOne ==
    Id = "tca" \/ n # 1 \/
      \E v \in {Gen(Kinds[k].l, n, 1)} : \E e \in {Expect(Id, Hdr0, v)} :
        \A f \in {q \in DOMAIN v : \E i \in DOMAIN Kinds[k].l :
                    Kinds[k].l[i].n = q /\ Kinds[k].l[i].k \in {"i", "il", "f", "fl", "s", "z"}
                    /\ Kinds[k].l[i].h = 0} :
           \E g \in {Expect(Id, Hdr0, [v EXCEPT ![f] =
                 IF \E i \in DOMAIN Kinds[k].l : Kinds[k].l[i].n = f /\ Kinds[k].l[i].k \in {"s", "z"}
                 THEN <<90>> ELSE 2])} :
             Cardinality({i \in DOMAIN e : e[i].x # g[i].x}) = 1
=============================================================================
