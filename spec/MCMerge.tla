-------------------------------- MODULE MCMerge --------------------------------
(* Every combination of present and absent parts of a small sounding, with a usable,
   missing, unreliable or below-ground surface and winds on heights or pressures:
   what G13 promises, checked on the specification; the cases are exported and replayed. *)
EXTENDS Merge, Json, IOUtils, TLC
CONSTANT OPT          \* parts that may be absent
VARIABLES on, sfc, bz, dz, phase
vars == <<on, sfc, bz, dz, phase>>
NAMES == {"TTAA", "TTCC", "PPAA", "PPCC", "TRPA", "TRPC", "MXWA", "MXWC", "TTBB", "TTDD", "PPBB", "PPDD"}
Lv(k, z, t, d, w) == [p |-> -1000 * k, z |-> z, t |-> t, d |-> d, w |-> w, s |-> IF w = NA THEN NA ELSE 1000 + w \div 100]
SfcLevel ==
  CASE sfc = "ok" -> Lv(1, 1000, 2000, 1500, 18000)
    [] sfc = "missing" -> NOLEVEL
    [] sfc = "nowind" -> Lv(1, 1000, 2000, NA, NA)
    [] sfc = "notemp" -> Lv(1, 1000, NA, NA, 18000)
    [] sfc = "low" -> Lv(12, 1000, 2000, 1500, 18000)
FullV == [
  TTAA |-> << SfcLevel, [Lv(0, 600, NA, NA, NA) EXCEPT !.z = 600], Lv(6, 22000, 1100, 300, 20000),
              Lv(12, 50000, 400, NA, NA), Lv(18, NA, -100, -300, 22000), Lv(24, 104000, -2000, -2500, NA) >>,
  TTCC |-> << Lv(42, 180000, -5600, NA, 28000), Lv(52, 222000, -5300, NA, NA) >>,
  PPAA |-> << Lv(12, NA, NA, NA, 21000), Lv(15, NA, NA, NA, 33000), Lv(24, NA, NA, NA, 35500) >>,
  PPCC |-> << Lv(42, NA, NA, NA, 100), Lv(52, NA, NA, NA, 1000) >>,
  TRPA |-> << Lv(36, NA, -5500, NA, 27000) >>,
  TRPC |-> << Lv(42, NA, -6100, NA, 29000), Lv(46, NA, -6000, NA, NA) >>,
  MXWA |-> << Lv(33, NA, NA, NA, 30000), Lv(36, NA, NA, NA, 31000) >>,
  MXWC |-> << Lv(55, NA, NA, NA, 500) >>,
  TTBB |-> << IF sfc = "missing" THEN NOLEVEL ELSE Lv(1, NA, 2050, 1550, NA), Lv(3, NA, 1800, 1000, NA),
              Lv(12, NA, 450, 0, NA), Lv(15, NA, 100, NA, NA), Lv(30, NA, -4000, NA, NA) >>,
  TTDD |-> << Lv(44, NA, -5800, NA, NA), Lv(58, NA, -5000, NA, NA) >>,
  PPBB |-> IF bz = 1
           THEN << [NOLEVEL EXCEPT !.z = 0, !.w = 17000, !.s = 500], [NOLEVEL EXCEPT !.z = 15250, !.w = 19000, !.s = 1000],
                   [NOLEVEL EXCEPT !.z = 50000, !.w = 20500, !.s = 1500], [NOLEVEL EXCEPT !.z = 91500, !.w = 23000, !.s = 2000] >>
           ELSE << Lv(1, NA, NA, NA, 17000), Lv(4, NA, NA, NA, 19000), Lv(12, NA, NA, NA, 20500), Lv(21, NA, NA, NA, 23000) >>,
  PPDD |-> IF dz = 1
           THEN << [NOLEVEL EXCEPT !.z = 183000, !.w = 35000, !.s = 900], [NOLEVEL EXCEPT !.z = 400000, !.w = 100, !.s = 800] >>
           ELSE << Lv(43, NA, NA, NA, 35000), Lv(60, NA, NA, NA, 100) >>]
PV == \* bound once: the parts there are
  CHOOSE r \in {LET F == FullV IN [n \in NAMES |-> IF n \in on THEN F[n] ELSE <<>>]
                @@ [bz |-> bz, dz |-> dz, selv |-> 1000]} : TRUE
Init == on = {} /\ sfc = "ok" /\ bz = 1 /\ dz = 1 /\ phase = 0
HALF == {"TTAA", "PPAA", "TTBB", "PPBB"} \cap OPT
\* the parts of the lower atmosphere, then those of the upper one (states for the workers to share)
Next == \/ /\ phase = 0 /\ phase' = 1
           /\ on' \in {((NAMES \ OPT) \cup S) : S \in SUBSET HALF}
           /\ sfc' \in {"ok", "missing", "nowind", "notemp", "low"}
           /\ bz' \in {0, 1} /\ dz' = dz
           /\ ("PPBB" \notin on' => bz' = 1) /\ ("TTAA" \notin on' => sfc' \in {"ok", "missing"})
        \/ /\ phase = 1 /\ phase' = 2
           /\ on' \in {on \cup S : S \in SUBSET (OPT \ HALF)}
           /\ dz' \in {0, 1} /\ ("PPDD" \notin on' => dz' = 1)
           /\ UNCHANGED <<sfc, bz>>

All(P) == P.TTAA \o P.TTCC \o P.PPAA \o P.PPCC \o P.TRPA \o P.TRPC \o P.MXWA \o P.MXWC \o P.TTBB \o P.TTDD \o P.PPBB \o P.PPDD
Temps(P) == P.TRPA \o P.TRPC \o P.TTBB \o P.TTDD
Decreasing(X) == \A i, j \in 2..Len(X) : (i < j /\ Ok(X[i].p) /\ Ok(X[j].p)) => X[i].p > X[j].p
\* every level comes from a level of some part
NoPhantoms(A, X) == \A i \in 1..Len(X) : Ok(X[i].p) =>
   \E j \in 1..Len(A) : (Ok(A[j].p) /\ A[j].p = X[i].p) \/ (Ok(A[j].z) /\ A[j].z = X[i].z)
EveryPressure(X) == \A i \in 2..Len(X) : Ok(X[i].p) \/ (Ok(X[i].z) /\ ~ Ok(X[1].p))
\* reported temperatures inside the sounding are there; complete mandatory levels keep theirs
TempsKept(P, T, X) ==
  /\ \A j \in 1..Len(T) : (Ok(T[j].t) /\ Ok(T[j].p) /\ (~ Ok(X[1].p) \/ T[j].p <= X[1].p)
                              /\ (Ok(X[1].p) \/ (P.TTAA # <<>> /\ T[j].p <= -6000)))
       => AtP(X, T[j].p) # 0 /\ Ok(X[AtP(X, T[j].p)].t)
  /\ \A M \in {P.TTAA, P.TTCC} : \A j \in 2..Len(M) :
       (Ok(M[j].t) /\ Ok(M[j].z) /\ (~ Ok(X[1].p) \/ M[j].p < X[1].p)) =>
         /\ AtP(X, M[j].p) # 0 /\ X[AtP(X, M[j].p)].t = M[j].t
         /\ (Ok(M[j].w) => X[AtP(X, M[j].p)].w = M[j].w)
Inv == phase = 2 =>
  \E P \in {PV} : \E A \in {All(P)} : \E T \in {Temps(P)} :
  (Total(P) = 0 \/ \E X \in {MergeParts(P).L} :
                     Decreasing(X) /\ NoPhantoms(A, X) /\ EveryPressure(X) /\ TempsKept(P, T, X))
Export == phase # 2 \/ IOEnv.OUT = "" \/ Serialize(ToJson(PV) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"CREATE", "WRITE", "APPEND">>]).exitValue = 0
=============================================================================
