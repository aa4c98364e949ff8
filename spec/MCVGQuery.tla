----------------------------- MODULE MCVGQuery -----------------------------
(* Laws of the queries, for all short element lists: groups partition the grouped elements,    *)
(* a conjunction is contained in each part and each part in the disjunction, and the           *)
(* class-and-type queries refine the class queries.                                            *)
EXTENDS VGMeaning
VARIABLE els
Heads == {[vg_class |-> c, vg_type |-> t, group_type |-> g[1], group_number |-> g[2],
           min_lat |-> 0, min_lon |-> b, max_lat |-> 2 * b, max_lon |-> b] :
          c \in {4, 5}, t \in {15, 21}, g \in {<<0, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>}, b \in {0, 5}}
Init == els = <<>>
Next == Len(els) < 2 /\ \E h \in Heads : els' = Append(els, h)
R(s) == {s[i] : i \in DOMAIN s}
Partition ==
    LET M(t) == UNION {R(GroupsOf(els, t)[k].idx) : k \in DOMAIN GroupsOf(els, t)} IN
    /\ UNION {M(t) : t \in GroupTypes(els)} = {i \in DOMAIN els : els[i].group_type # 0}
    /\ \A t \in GroupTypes(els) :
         Sum([k \in DOMAIN GroupsOf(els, t) |-> Len(GroupsOf(els, t)[k].idx)]) = Cardinality(M(t))
Filters ==
    \A c \in {4, 5} : \A t \in {15, 21} :
      /\ R(FilterOf(els, c, t, "and")) = R(FilterOf(els, c, -1, "and")) \cap R(FilterOf(els, -1, t, "and"))
      /\ R(FilterOf(els, c, t, "or")) = R(FilterOf(els, c, -1, "and")) \cup R(FilterOf(els, -1, t, "and"))
Refine == /\ R(GetOf(els, "special_text")) \subseteq R(GetOf(els, "text"))
          /\ R(GetOf(els, "special_symbols")) \subseteq R(GetOf(els, "symbols"))
          /\ R(GetOf(els, "text")) \cup R(GetOf(els, "symbols")) = DOMAIN els
=============================================================================
