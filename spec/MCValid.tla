------------------------------- MODULE MCValid -------------------------------
(* All spoilings (one character dropped, put in or replaced) of written dates:
   what the grammar of dates decides about them, and that its parts agree.
   Every string is exported, to be given to the writers.                       *)
EXTENDS DMValid, Json, IOUtils
CONSTANT BASES     \* how many of the base strings
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Stm(y, m, d, h, mi) == Two(y \div 100) \o Two(y % 100) \o Two(m) \o Two(d) \o Two(h) \o Two(mi)
T012 == <<48, 49, 50>>
Base == << Stm(2024, 2, 29, 23, 59), Stm(2023, 12, 31, 0, 5) \o <<70>> \o T012,
           Stm(2000, 10, 9, 12, 30) \o <<65>>, Stm(1999, 1, 1, 9, 0) \o <<71>> \o T012 \o <<51, 48>>,
           Stm(2024, 11, 30, 20, 10) \o <<102>> \o <<54>>, Stm(2068, 4, 20, 1, 1) \o <<73>> \o T012 >>
Chars == {48, 49, 51, 57, 32, 45, 65, 70, 102, 81, 95}
VARIABLES b, s
vars == <<b, s>>
Init == b \in 1..BASES /\ s = Base[b]
Ins(t, i, x) == SubSeq(t, 1, i - 1) \o <<x>> \o SubSeq(t, i, Len(t))
Del(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Next == /\ s = Base[b]
        /\ \/ \E i \in 1..Len(s) : s' = Del(s, i)
           \/ \E i \in 1..(Len(s) + 1), x \in Chars : s' = Ins(s, i, x)
           \/ \E i \in 1..Len(s), x \in Chars : s' = [s EXCEPT ![i] = x]
        /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

\* what is accepted denotes a time; a stamp is accepted by all; a forecast of three digits is
\* a grid date just when it is a sounding date
G == GridDate(s)
S == SndDate(s)
U == StampV(s)
Accepted == G # "no" => LET ls == Letters(Up(s))  t == IF ls = <<>> THEN s ELSE SubSeq(s, 1, ls[1] - 1) IN
                        Stamp(t) /\ Len(s) <= 18
                        /\ (InYears(t) => StampTime(t) \in AbsMin(<<1969, 1, 1, 0, 0>>)..AbsMin(<<2068, 12, 31, 23, 59>>))
Stamps == U = "ok" => G = "ok" /\ S = "ok"
Agree == LET f == SelectInSeq(Up(s), LAMBDA x : x = 70) IN
         f = 13 /\ Len(s) = 16 /\ Len(Letters(Up(s))) = 1 => G = S
Case == GridDate(Up(s)) = G /\ SndDate(Up(s)) = S
Short == Len(s) < 12 => G = "no" /\ S = "no" /\ U = "no"
Bases == s = Base[b] => G \in {"ok", "free"}
Export == IOEnv.OUT = "" \/ Serialize(ToJson([s |-> s, g |-> G, n |-> S, u |-> U]) \o "\n", IOEnv.OUT,
            [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
