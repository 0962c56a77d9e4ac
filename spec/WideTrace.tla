------------------------------ MODULE WideTrace ------------------------------
(* Each recorded operation on wide operands must be the one WideArith      *)
(* defines.  One state per record.                                         *)
EXTENDS WideArith, Json, IOUtils
Recs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES i, done
Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done
        /\ LET x == Apply(Recs[i]) IN
           IF x = Recs[i].o THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<i, x>>))
        /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
