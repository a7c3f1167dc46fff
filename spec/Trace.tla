-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates executions recorded from the implementation: every recorded   *)
(* call must have an outcome the specification admits.  The records are    *)
(* cut into chains so that TLC's workers share them.                       *)
(***************************************************************************)
EXTENDS Api, IOUtils, Json

Recs == ndJsonDeserialize(IOEnv.TRACE)
Count == Len(Recs)
Chains == 16
ChainLen == (Count + Chains - 1) \div Chains

VARIABLES pos, end
vars == <<pos, end>>

Init == \E c \in 0..(Chains - 1) :
            /\ pos = Min2(c * ChainLen, Count)
            /\ end = Min2((c + 1) * ChainLen, Count)
Legal(i) ==
    LET r == Recs[i]
    IN  IF Admits(r.op, r.a, r.k, r.v) THEN TRUE
        ELSE PrintT("MISMATCH " \o ToString(i) \o " " \o ToJson(Shown(r.op, r.a)))
Next == /\ pos < end
        /\ Legal(pos + 1)
        /\ pos' = pos + 1
        /\ UNCHANGED end
Spec == Init /\ [][Next]_vars
=============================================================================
