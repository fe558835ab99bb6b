------------------------------ MODULE IdTrace ------------------------------
(* Recorded draws of request ids, by any number of threads, explained as taking the next number of 0..2^31-1 cyclically at  *)
(* one point between beginning and end; fresh trace ids; memory.                                                         *)
(*   at(id)         the counter was run forward to just after id (long quiet stretches are not recorded one by one)       *)
(*   inv(p), ret(p, id)   thread p makes a request, a one-way request or a heartbeat                                       *)
(*   memory(kb)     growth of the process over millions of draws;  block(ids, n)  n trace ids made, in one millisecond or more *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
Top == 2147483647
VARIABLES t, l, nxt, pend
vars == <<t, l, nxt, pend>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ nxt = -1 /\ pend = <<>>
Ev == Traces[t].ev[l]
After(x) == IF x = Top THEN 0 ELSE x + 1
Put(f, k, v) == (k :> v) @@ f
Step == t' = t /\ l' = l + 1
At == Ev.e = "at" /\ Ev.id \in 0..Top /\ (Ev.n = 0 \/ Ev.ok) /\ nxt' = After(Ev.id) /\ pend' = pend
Inv == Ev.e = "inv" /\ pend' = Put(pend, Ev.p, -1) /\ nxt' = nxt
Lin == /\ Ev.e = "ret" /\ nxt >= 0 /\ \E p \in DOMAIN pend : pend[p] = -1 /\ pend' = [pend EXCEPT ![p] = nxt] /\ nxt' = After(nxt)
       /\ UNCHANGED <<t, l>>
Ret == /\ Ev.e = "ret" /\ Ev.id \in 0..Top
       /\ \/ pend[Ev.p] = Ev.id /\ nxt' = nxt
          \/ nxt = -1 /\ nxt' = After(Ev.id)               \* the first one starts anywhere
       /\ pend' = [p \in DOMAIN pend \ {Ev.p} |-> pend[p]]
Memory == Ev.e = "memory" /\ Ev.kb < 30000 /\ UNCHANGED <<nxt, pend>>
Block == Ev.e = "block" /\ Len(Ev.ids) = Ev.n /\ Cardinality({Ev.ids[i] : i \in 1..Ev.n}) = Ev.n /\ UNCHANGED <<nxt, pend>>
Next == l <= Len(Traces[t].ev) /\ (Lin \/ (Step /\ (At \/ Inv \/ Ret \/ Memory \/ Block)))
TraceSpec == Init /\ [][Next]_vars
Report == l > Len(Traces[t].ev) => PrintT(ToJson(<<"OK", t>>))
Progress == PrintT(ToJson(<<"AT", t, l>>))
==============================================================================
