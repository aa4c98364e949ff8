------------------------------ MODULE MCVGGroup ------------------------------
(* All histories of adds to two groups; each is exported to be replayed.       *)
EXTENDS VGGroup, Json, IOUtils
CONSTANTS TYPES, NUMS, DEPTH
VARIABLES gs, hist
vars == <<gs, hist>>
Kinds == {[t |-> t, n |-> n] : t \in TYPES, n \in NUMS}
Elem(i, k) == [id |-> i, t |-> k.t, n |-> k.n]
Init == gs = <<Empty, Empty>> /\ hist = <<>>
Next == /\ Len(hist) < DEPTH
        /\ \E g \in 1..2, k \in Kinds :
             \E e \in {Elem(Len(hist) + 1, k)} :
               gs' = [gs EXCEPT ![g] = Put(@, e)] /\ hist' = Append(hist, [g |-> g, t |-> k.t, n |-> k.n])
Homogeneous == \A g \in 1..2 : \A i \in 1..Len(gs[g].m) :
    hist[gs[g].m[i]].t = gs[g].t /\ hist[gs[g].m[i]].n = gs[g].n
InOrder == \A g \in 1..2 : \A i, j \in 1..Len(gs[g].m) : i < j => gs[g].m[i] < gs[g].m[j]
FirstIn == \A g \in 1..2 : (\E i \in 1..Len(hist) : hist[i].g = g) =>
    gs[g].m # <<>> /\ \A i \in 1..Len(hist) : hist[i].g = g => gs[g].m[1] <= i
Complete == \A i \in 1..Len(hist) : hist[i].t = gs[hist[i].g].t /\ hist[i].n = gs[hist[i].g].n
    => \E j \in 1..Len(gs[hist[i].g].m) : gs[hist[i].g].m[j] = i
Export == IOEnv.OUT = "" \/ Len(hist) < DEPTH \/ Serialize(ToJson(hist) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"CREATE", "WRITE", "APPEND">>]).exitValue = 0
=============================================================================
