-------------------------------- MODULE DMEval --------------------------------
(* Builds files: a logical description and a physical layout become file words.  *)
EXTENDS DMLayout, Json, IOUtils
VARIABLE k
In == ndJsonDeserialize(IOEnv.IN)
Res(x) == LET f == Encode(Expand(Concrete(x.d), x.ph), LayOf(x.ph)) IN [w |-> f.w, tx |-> f.tx]
Init == k = 0
Next == k < Len(In) /\ k' = k + 1
Done == k = Len(In) => ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(In) |-> Res(In[i])])
=============================================================================
