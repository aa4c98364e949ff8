-------------------------------- MODULE VGEval --------------------------------
(* Places the values of records.  Without input: lists the layout tables themselves.  *)
EXTENDS VGMeaning, Json, IOUtils
VARIABLE k
In == ndJsonDeserialize(IOEnv.IN)
Res(x) == IF x.op = "tables" THEN [kinds |-> Kinds, header |-> Header]
          ELSE Place(x.id, x.val)
Init == k = 0
Next == k < Len(In) /\ k' = k + 1
Done == k = Len(In) => ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(In) |-> Res(In[i])])
=============================================================================
