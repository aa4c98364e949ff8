---------------------------- MODULE DMSessionTrace ----------------------------
(* Validates recorded sessions against DMSession.  Every event is one spec step;
   the verdict is total: violated clauses are collected with their position.    *)
EXTENDS DMSession, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)

\* twins: per object the file headers its coordinates give (<<>>: not recorded)
VARIABLES l, objs, writes, twins, bad
vars == <<l, objs, writes, twins, bad>>
FileHeaders(f) == DecFH(f, Label(f))

Init == l = 1 /\ objs = <<>> /\ writes = <<>> /\ twins = <<>> /\ bad = <<>>

\* a write must equal every earlier write of an object with the same contents
SigOf(o) == [k |-> o.kind, p |-> o.params, nx |-> o.nx, ny |-> o.ny, prec |-> o.prec,
             c |-> Contents(o)]
Fails(O, W, e) ==
  IF e.ev = "new" THEN (IF e.same = 1 THEN <<>> ELSE <<"G17:argument-modified">>)
  ELSE LET o == O[e.o] IN
  IF o.taint = 1 THEN <<>>
  ELSE IF e.ev = "add" THEN
    (IF e.bad # "" THEN <<>>
     ELSE IF Room(o, e) THEN
       (IF e.out = "ok" THEN <<>>
        ELSE <<PidOf(o) \o ":add-refused">> \o (IF e.hist = 1 THEN <<e.hp \o ":add-refused">> ELSE <<>>))
     ELSE IF e.out = "ok" THEN <<"G26:over-capacity">> ELSE <<>>)
    \o (IF e.same = 1 THEN <<>> ELSE <<"G17:argument-modified">>)
  ELSE IF e.ev = "write" THEN
    IF e.out # "ok" THEN <<PidOf(o) \o ":write-failed">> \o (IF e.hist = 1 THEN <<e.hp \o ":write-failed">> ELSE <<>>)
    ELSE LET wf == WriteFails(o, e.w, e.nb) IN
      wf
      \* in histories with rejected adds / caller mutations a wrong file is (also) that property's
      \o (IF e.hist = 1 /\ wf # <<>> THEN <<e.hp \o ":wrong-contents">> ELSE <<>>)
      \o (IF \A i \in 1..Len(W) : W[i].sig = SigOf(o) => W[i].w = e.w THEN <<>>
          ELSE <<"G04:bytes-differ">>)
  ELSE IF e.ev = "read" THEN
     LET rf == ReadFails(o, e) IN
     rf \o (IF e.hist = 1 /\ rf # <<>> THEN <<e.hp \o ":wrong-readback">> ELSE <<>>)
  ELSE <<>>

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         O == IF e.first = 1 THEN <<>> ELSE objs
         W == IF e.first = 1 THEN <<>> ELSE writes
         T == IF e.first = 1 THEN <<>> ELSE twins
         fs == Fails(O, W, e)
               \o (IF e.ev = "write" /\ e.out = "ok" /\ T[e.o] # <<>> /\ Decodable(e.w)
                      /\ FileHeaders(e.w) # T[e.o] THEN <<"G17:file-headers">> ELSE <<>>)
     IN /\ bad' = bad \o [i \in 1..Len(fs) |-> [at |-> l, clause |-> fs[i]]]
        /\ objs' = IF e.ev = "new" THEN Append(O, NewObj(e))
                   ELSE IF e.ev = "add" THEN [O EXCEPT ![e.o] = DoAdd(@, e)] ELSE O
        /\ twins' = IF e.ev = "new" THEN Append(T, IF e.twin = <<>> THEN <<>> ELSE FileHeaders(e.twin)) ELSE T
        /\ writes' = IF e.ev = "write" /\ e.out = "ok" /\ O[e.o].taint = 0
                     THEN Append(W, [sig |-> SigOf(O[e.o]), w |-> e.w]) ELSE W
  /\ l' = l + 1

WriteOut == (l = Len(Trace) + 1) =>
   JsonSerialize(IOEnv.OUT, [n |-> l - 1, bad |-> bad])
=============================================================================
