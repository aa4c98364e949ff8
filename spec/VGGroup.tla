------------------------------- MODULE VGGroup -------------------------------
(* A group of VGF elements: it takes its type and number from the first element
   and only further elements of that type and number; members stay in the order
   in which they were added.  An element is [id, t, n].                        *)
EXTENDS Integers, Sequences, TLC
NONE == -1
Empty == [t |-> NONE, n |-> NONE, m |-> <<>>]
Fits(g, e) == g.m = <<>> \/ (g.t = e.t /\ g.n = e.n)
Put(g, e) == IF Fits(g, e) THEN [t |-> e.t, n |-> e.n, m |-> Append(g.m, e.id)] ELSE g
\* what is seen of a group
Seen(g) == [t |-> g.t, n |-> g.n, size |-> Len(g.m), iter |-> g.m, els |-> g.m]
=============================================================================
