------------------------------ MODULE CoreSim ------------------------------
(* Random behaviours of Core: the history is printed when it is long enough. *)
EXTENDS CoreMC
CONSTANT Horizon
VARIABLE hist
InitH == Init /\ hist = <<>>
\* at the horizon the only thing left to do is to print what happened
NextH == \/ /\ Len(hist) < Horizon
            /\ Next
            /\ "why" \in DOMAIN last' => (last'.why \notin {"kind", "client", "gone"} \/ RandomElement(1..12) = 1)
            /\ hist' = Append(hist, [l |-> last', o |-> Obs'])
         \/ /\ Len(hist) = Horizon
            /\ PrintT(ToJson([cfg |-> cfg, h |-> hist]))
            /\ hist' = Append(hist, [l |-> last, o |-> Obs])
            /\ UNCHANGED <<vars, last>>
=============================================================================
