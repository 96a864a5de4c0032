------------------------------ MODULE FifoGen ------------------------------
(* Enumerates every request schedule of length D of the Fifo specification    *)
(* and prints it for replay on the generated hardware.                        *)
EXTENDS FifoMC, TLC, Json, IOUtils
CONSTANT D
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == /\ Len(hist) < D
         /\ \E e, d \in {0, 1} :
              /\ Cycle(e = 1, d = 1)
              /\ hist' = Append(hist, <<e, d>>)
              /\ (Len(hist') = D => PrintT(<<"GEN", ToJson(hist')>>))
=============================================================================
