------------------------------- MODULE MCObjects -------------------------------
(* A file of two stations and one time with some of its records left out: there is
   one sounding for each station with a record, it carries exactly the coded reports
   stored for it, has a station pressure exactly when it is on pressures, and none of
   this depends on the order of the parts or on deleted columns.                    *)
EXTENDS DMObjects, DMLayout
VARIABLES kind, S, order, gap
vars == <<kind, S, order, gap>>

W(s) == TextWord(s)
Par(n) == [name |-> n, scale |-> 0, offset |-> 0, bits |-> 0]
T_TEXT == <<84,69,88,84>>
FParts(k) ==
  IF k = "unmerged"
  THEN << [name |-> <<84,84,65,65>>, hdr |-> 1, typ |-> 1, params |-> <<Par(S_PRES)>>],
          [name |-> TextParts[1], hdr |-> 1, typ |-> 3, params |-> <<Par(T_TEXT)>>],
          [name |-> TextParts[4], hdr |-> 1, typ |-> 3, params |-> <<Par(T_TEXT)>>] >>
  ELSE << [name |-> <<83,78,68,84>>, hdr |-> 1, typ |-> 1,
           params |-> <<Par(IF k = "pres" THEN S_PRES ELSE S_HGHT), Par(<<84,77,80,67>>)>>],
          [name |-> <<83,78,68,50>>, hdr |-> 1, typ |-> 1, params |-> <<Par(<<79,77,69,71>>)>>] >>
Words3(k, c, p) ==
  IF k = "unmerged" /\ p > 1 THEN <<W(<<65 + c, 66, 67, 32>>), W(<<68 + p, 32, 32, 32>>)>>
  ELSE IF k = "unmerged" \/ p = 2 THEN <<100 + c>> ELSE <<100 + c, 5>>
AllRecs(k) == {<<c, p>> : c \in 1..2, p \in 1..Len(FParts(k))}
Stn(i) == <<W(<<75, 48 + i, 32, 32>>), 70 + i, 4300, -8900, 100, W(<<87, 73, 32, 32>>), W(<<85, 83, 32, 32>>)>>
DescOf(k, s, ord, g) ==
  LET ps == FParts(k)
      at(p) == CHOOSE i \in 1..Len(ord) : ord[i] = p
      rs == SelectSeq([i \in 1..(2 * Len(ps)) |-> <<((i - 1) \div Len(ps)) + 1, ((i - 1) % Len(ps)) + 1>>], LAMBDA q : q \in s)
      d == [ftype |-> 1, src |-> 2, fh |-> <<>>, rkeys |-> <<S_DATE, <<84,73,77,69>> >>,
            ckeys |-> << S_STID, <<83,84,78,77>>, <<83,76,65,84>>, <<83,76,79,78>>, <<83,69,76,86>>, <<83,84,65,84>>, <<67,79,85,78>> >>,
            rows |-> << [used |-> 1, w |-> <<240101, 1200>>, tx |-> <<0, 0>>] >>,
            cols |-> [i \in 1..2 |-> [used |-> 1, w |-> Stn(i), tx |-> <<1, 0, 0, 0, 0, 1, 1>>]],
            parts |-> [i \in 1..Len(ord) |-> ps[ord[i]]],
            recs |-> [i \in 1..Len(rs) |-> LET x == rs[i]  w == Words3(k, x[1], x[2]) IN
              [r |-> 1, c |-> x[1], p |-> at(x[2]), hdr |-> <<1200>>, data |-> w, tx |-> [j \in 1..Len(w) |-> 0]]]]
      ph == [CanonPh(d) EXCEPT !.cols = SubSeq(<<1>>, 1, 1) \o (IF g = 1 THEN <<0>> ELSE <<>>) \o <<2>>]
  IN Encode(Expand(d, ph), LayOf(ph)).w

FormsOf(k, s, ord, g) == Forms([kind |-> "sounding", w |-> DescOf(k, s, ord, g)])
Ident(k) == [i \in 1..Len(FParts(k)) |-> i]
\* in a merged sounding the levels have to be there
OKSet(k, s) == k = "unmerged" \/ \A q \in s : <<q[1], 1>> \in s
Init == kind \in {"unmerged", "pres", "hght"} /\ S = AllRecs(kind) /\ order = Ident(kind) /\ gap = 0
Next ==
  \/ \E q \in S : OKSet(kind, S \ {q}) /\ Cardinality(S) > 1 /\ S' = S \ {q} /\ UNCHANGED <<kind, order, gap>>
  \/ \E i \in 1..(Len(order) - 1) : order' = [order EXCEPT ![i] = order[i + 1], ![i + 1] = order[i]]
                                    /\ UNCHANGED <<kind, S, gap>>
  \/ gap = 0 /\ gap' = 1 /\ UNCHANGED <<kind, S, order>>

Right ==
  \E F \in {FormsOf(kind, S, order, gap)} :
  LET cs == SetToSortSeq({q[1] : q \in S}, LAMBDA a, b : a < b) IN
  /\ F.n = Len(cs) /\ Len(F.xs) = Len(cs)
  /\ \A i \in 1..Len(cs) : \E x \in {F.xs[i]} :
       /\ x.k.num = 70 + cs[i]
       /\ {y.n : y \in x.codes} = IF kind # "unmerged" THEN {} ELSE {Low(FParts(kind)[p].name) : p \in {p \in 2..3 : <<cs[i], p>> \in S}}
       /\ \A y \in x.codes : y.v[1] = 65 + cs[i]
       /\ (x.first # <<>>) = (kind = "pres")
       /\ x.vc = IF kind = "hght" THEN N_HGHT ELSE N_PRES
       /\ kind # "unmerged" => x.n = 1 /\ Cardinality(x.vars) = (IF <<cs[i], 2>> \in S THEN 2 ELSE 1)
Same ==      \* neither part order nor deleted columns matter
  \E F \in {FormsOf(kind, S, order, gap)} : \E G \in {FormsOf(kind, S, Ident(kind), 0)} :
  F.n = G.n /\ [i \in 1..Len(F.xs) |-> [F.xs[i] EXCEPT !.k = 0]] = [i \in 1..Len(G.xs) |-> [G.xs[i] EXCEPT !.k = 0]]
=============================================================================
