---------------------------- MODULE ThreadGenRun ----------------------------
(* Print the programs of the skeleton vectors chosen by the harness. *)
EXTENDS ThreadGen, Json, IOUtils
VARIABLE k
Sel == JsonDeserialize(IOEnv.TRACE)
GInit == k = 0
GNext == k < Len(Sel) /\ PrintT(<<"GEN", ToJson(Build(Sel[k + 1]))>>) /\ k' = k + 1
=============================================================================
