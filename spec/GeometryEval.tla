------------------------------ MODULE GeometryEval ------------------------------
(* Meanings of navigation blocks, for the driver to hand to the projection formulas. *)
EXTENDS Geometry, Json, IOUtils
In == ndJsonDeserialize(IOEnv.IN)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in DOMAIN In |-> Meaning(In[i])])
=============================================================================
