---------------------------- MODULE PoolTrace ----------------------------
(* Runs PoolAbs over recorded executions of the real connection pool. *)
EXTENDS PoolAbs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = Start0(Traces[t].cfg)
Next == /\ l <= Len(Traces[t].ev)
        /\ LET ev == Traces[t].ev[l]
               b == Bad(s, ev)
           IN (b # {} => PrintT(ToJson(<<"BAD", t, l, b>>))) /\ s' = Apply(s, ev)
        /\ l' = l + 1 /\ t' = t
TraceSpec == Init /\ [][Next]_<<t, l, s>>
View == <<t, l>>
=============================================================================
