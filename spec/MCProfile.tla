------------------------------- MODULE MCProfile -------------------------------
(* Gap filling on every pattern of missing values of a small profile: what G14
   promises, checked on the specification; the patterns are exported and replayed. *)
EXTENDS Profile, Json, IOUtils
CONSTANT N
VARIABLE L
KP == <<0, -13000, -38000, -41000, -60000, -72000>>      \* crosses 100 hPa
TV == <<1500, 300, -4500, -5500, -4000, -3000>>
WV == <<1000, 35500, 17400, 35400, 500, 9000>>
Lev(i, m) ==      \* m: 0 all, 1 no dewpoint, 2 no temperature, 3 no wind, 4 nothing, 5 not even pressure
  [p |-> IF m = 5 THEN NA ELSE KP[i], z |-> NA,
   t |-> IF m \in {2, 4, 5} THEN NA ELSE TV[i], d |-> IF m \in {1, 2, 4, 5} THEN NA ELSE TV[i] - 100 * i,
   w |-> IF m \in {3, 4, 5} THEN NA ELSE WV[i], s |-> IF m \in {3, 4, 5} THEN NA ELSE 1000 * i]
Init == L = <<>>
Next == /\ Len(L) < N
        /\ \E m \in (IF Len(L) = 0 THEN {0, 3, 4, 5} ELSE {0, 1, 2, 3, 4}) : L' = Append(L, Lev(Len(L) + 1, m))
M == FillGaps(L)
LoI(i, g(_)) == PrevI(L, i, LAMBDA j : Ok(g(L[j])) /\ Ok(L[j].p))
HiI(i, g(_)) == NextI(L, i, LAMBDA j : Ok(g(L[j])))
Filled(g(_)) ==
  \A i \in 1..Len(L) :
    LET a == LoI(i, g)  b == HiI(i, g) IN
    IF Ok(g(L[i])) THEN g(M[i]) = g(L[i])
    ELSE Ok(g(M[i])) <=> (a # 0 /\ b # 0)
T(x) == x.t  W(x) == x.w  D(x) == x.d
\* filled values are on the straight line (or arc) between the nearest valid levels
OnLine ==
  \A i \in 1..Len(L) :
    /\ LET a == LoI(i, T)  b == HiI(i, T) IN
       (~ Ok(L[i].t) /\ a # 0 /\ b # 0) => AbsP(M[i].t - Lin(L[a].t, L[b].t, L[i].p, L[a].p, L[b].p)) <= 2
    /\ LET a == LoI(i, W)  b == HiI(i, W) IN
       (~ Ok(L[i].w) /\ a # 0 /\ b # 0) =>
          LET x == Dir(L[a].w, L[b].w, L[i].p, L[a].p, L[b].p)  g == (M[i].w - x) % TURN IN g <= 2 \/ TURN - g <= 2
    /\ LET a == LoI(i, D)  b == HiI(i, D) IN
       (~ Ok(L[i].d) /\ Ok(M[i].d)) => (a # 0 /\ b # 0 /\ AbsP(M[i].d - Lin(L[a].d, L[b].d, L[i].p, L[a].p, L[b].p)) <= 2)
\* a lone dewpoint is not filled across 100 hPa, otherwise like the others
DewFilled ==
  \A i \in 1..Len(L) :
    LET a == LoI(i, D)  b == HiI(i, D) IN
    IF Ok(L[i].d) THEN M[i].d = L[i].d
    ELSE IF a = 0 \/ b = 0 THEN ~ Ok(M[i].d)
    ELSE (Ok(M[i].d) \/ (L[a].p > P100 /\ L[b].p < P100))
Inv == Len(L) = N => (Filled(T) /\ Filled(W) /\ OnLine /\ DewFilled)
Export == (Len(L) = N /\ IOEnv.OUT # "") => Serialize(ToJson(L) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"CREATE", "WRITE", "APPEND">>]).exitValue = 0
=============================================================================
