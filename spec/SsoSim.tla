------------------------------ MODULE SsoSim ------------------------------
(* Random behaviours of Sso: the history is printed when it is long enough. *)
EXTENDS Sso
CONSTANT Horizon
VARIABLE hist
InitH == Init /\ hist = <<>>
NextH == \/ /\ Len(hist) < Horizon
            /\ Next
            /\ (last'.a \in {"tick", "reload"}) => RandomElement(1..3) = 1
            /\ (last'.a \in {"badcookie"}) => RandomElement(1..6) = 1
            /\ (last'.a \in {"logout", "logoutreq"}) => RandomElement(1..10) = 1
            /\ (last'.a = "sso" /\ last'.res # "answer") => RandomElement(1..4) = 1
            /\ hist' = Append(hist, [l |-> last', o |-> 0])
         \/ /\ Len(hist) = Horizon
            /\ PrintT(ToJson([cfg |-> cfg, h |-> hist]))
            /\ hist' = Append(hist, [l |-> last, o |-> 0])
            /\ UNCHANGED <<vars, last>>
=============================================================================
