----------------------------- MODULE CtxTrace -----------------------------
EXTENDS CtxAbs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Init == t \in 1..Len(Traces) /\ l = 0
Next == /\ l < Len(Traces[t].ev) /\ t' = t /\ l' = l + 1
        /\ LET b == Bad(Traces[t].ev[l + 1]) IN b # {} => PrintT(ToJson(<<"BAD", t, l + 1, b>>))
TraceSpec == Init /\ [][Next]_<<t, l>>
==============================================================================
