----------------------------- MODULE RoutingTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, m, lab
Rt == INSTANCE Routing WITH Ifaces <- {}, Addrs <- {}, Emit <- FALSE
Init == t \in 1..Len(Traces) /\ l = 1 /\ m = <<>> /\ lab = <<>>
Next == /\ l <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l]
               b == Rt!BadR(m, ev)
           IN (b # {} => PrintT(ToJson(<<"BAD", t, l, b>>))) /\ m' = Rt!ApplyR(m, ev)
        /\ l' = l + 1 /\ t' = t /\ lab' = lab
TraceSpec == Init /\ [][Next]_<<t, l, m, lab>>
View == <<t, l>>
==============================================================================
