-------------------------------- MODULE MCHeights --------------------------------
(* Heights and pressures of incomplete profiles: every pattern of levels with and without
   pressure, height and temperature, for the three functions.  What the functions promise
   is checked on the specification; the patterns are exported and replayed.             *)
EXTENDS Profile, Json, IOUtils
CONSTANT N
VARIABLES fn, L
KP == <<0, -13000, -22000, -41000, -60000, -72000>>
ZV == <<1200, 84000, 139000, 250000, 360000, 430000>>
TV == <<1500, 300, -1500, -5500, -4000, -3000>>
\* m: a set of what is missing
Lev(i, m) == [p |-> IF "p" \in m THEN NA ELSE KP[i], z |-> IF "z" \in m THEN NA ELSE ZV[i],
              t |-> IF "t" \in m THEN NA ELSE TV[i], d |-> IF "t" \in m \/ i % 2 = 0 THEN NA ELSE TV[i] - 400,
              w |-> NA, s |-> NA]
Kinds == { {}, {"z"}, {"t"}, {"z", "t"}, {"p"}, {"p", "t"} }
Init == fn \in {"moist", "logz", "logp"} /\ L = <<>>
Next == Len(L) < N /\ \E m \in Kinds : L' = Append(L, Lev(Len(L) + 1, m)) /\ UNCHANGED fn
M == CASE fn = "moist" -> MoistHeights(L) [] fn = "logz" -> LogHeights(L) [] fn = "logp" -> LogPressures(L)
\* the only things that change are the ones computed, and only where they were missing
Untouched ==
  \A i \in 1..Len(L) :
    /\ M[i].t = L[i].t /\ M[i].d = L[i].d /\ M[i].w = L[i].w /\ M[i].s = L[i].s
    /\ (fn = "logp" => M[i].z = L[i].z) /\ (fn # "logp" => M[i].p = L[i].p)
    /\ (Ok(L[i].z) => M[i].z = L[i].z) /\ (Ok(L[i].p) => M[i].p = L[i].p)
\* heights never fall and pressures never rise along the profile
Rising ==
  \A i, j \in 1..Len(L) : i < j =>
    /\ (Ok(M[i].z) /\ Ok(M[j].z)) => M[i].z < M[j].z
    /\ (Ok(M[i].p) /\ Ok(M[j].p)) => M[i].p > M[j].p
\* what lies between two complete levels is found
Between2 ==
  \A i, j, k \in 1..Len(L) : (i < j /\ j < k /\ {L[q][x] : q \in {i, k}, x \in {"p", "z", "t"}} \cap {NA} = {}) =>
     CASE fn = "moist" -> (Ok(L[j].p) /\ Ok(L[j].t)) => Ok(M[j].z)
       [] fn = "logz" -> Ok(L[j].p) => Ok(M[j].z)
       [] fn = "logp" -> Ok(L[j].z) => Ok(M[j].p)
Inv == Len(L) = N => (Untouched /\ Rising /\ Between2)
Export == (Len(L) = N /\ IOEnv.OUT # "") => Serialize(ToJson([fn |-> fn, L |-> L]) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"CREATE", "WRITE", "APPEND">>]).exitValue = 0
=============================================================================
