---------------------------- MODULE LruTrace ----------------------------
(* Recorded executions of the pool manager and its container, by any number of threads, against the sequential       *)
(* specification LruAbs: a trace is accepted when some order of the operations, each taking effect at one point       *)
(* between its beginning and its end, explains every result and every closed pool (hidden steps Lin).                 *)
(*   inv(p, op, k, v)     p begins: pool(k), get(k), set(k, v), del(k), clear, len, keys, enter(k) / exit of a scope   *)
(*   ret(p, r, ks)        it ended with result r (0: nothing / no such key; -1: an error; -2: a pool could not be made) *)
(*   made(p, v)           pool v is made;  failed(p): making one failed;   shut(v): pool v is closed                   *)
(*   got(p, v, c) / back(p, v, c)   connection c is borrowed from / returned to pool v                                  *)
EXTENDS LruAbs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, order, pend, due, made, gone, scope
vars == <<t, l, order, pend, due, made, gone, scope>>
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ order = <<>> /\ pend = <<>> /\ due = {} /\ made = <<>> /\ gone = {} /\ scope = <<>>
Ev == Traces[t].ev[l]
MaxOf == Traces[t].cfg.max
Step == l' = l + 1 /\ t' = t
P(p) == pend[p]
Set(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Inv == /\ Ev.e = "inv" /\ pend' = Set(pend, Ev.p, [op |-> Ev.op, k |-> Ev.k, v |-> Ev.v, lin |-> FALSE, r |-> 0, ks |-> {}, owes |-> {}, failed |-> FALSE,
                                                  got |-> 0, c |-> 0, back |-> FALSE])
       /\ UNCHANGED <<order, due, made, gone, scope>>
Made == /\ Ev.e = "made" /\ made' = Set(made, Ev.v, Ev.p) /\ UNCHANGED <<order, pend, due, gone, scope>>
Failed == /\ Ev.e = "failed" /\ Ev.p \in DOMAIN pend /\ pend' = [pend EXCEPT ![Ev.p].failed = TRUE] /\ UNCHANGED <<order, due, made, gone, scope>>
Shut == /\ Ev.e = "shut" /\ UNCHANGED <<order, pend, made, scope>>
        /\ \/ Ev.v \in due /\ due' = due \ {Ev.v} /\ gone' = gone \cup {Ev.v}
           \/ Ev.v \in DOMAIN made /\ Ev.v \notin gone /\ ~Holds(order, Ev.v) /\ Ev.v \notin due       \* made for nothing
              /\ gone' = gone \cup {Ev.v} /\ due' = due
(* the effect of p's operation *)
Eff(p) == IF P(p).op \in {"pool", "enter"} THEN PoolOp(order, MaxOf, P(p).k, IF P(p).failed THEN {-2} ELSE {v \in DOMAIN made : made[v] = p /\ v \notin gone /\ v \notin due /\ ~Holds(order, v)})
          ELSE {Effect(order, MaxOf, P(p))}
Lin == /\ Ev.e \in {"ret", "shut", "got"}
       /\ \E p \in DOMAIN pend : /\ ~P(p).lin /\ P(p).op # "exit"
             /\ \E x \in Eff(p) :
                 /\ order' = x.order /\ due' = due \cup x.out
                 /\ pend' = [pend EXCEPT ![p].lin = TRUE, ![p].r = x.r, ![p].ks = x.ks, ![p].owes = x.out]
       /\ UNCHANGED <<t, l, made, gone, scope>>
Got == /\ Ev.e = "got" /\ Ev.p \in DOMAIN pend /\ P(Ev.p).op = "enter" /\ P(Ev.p).lin /\ P(Ev.p).r = Ev.v /\ P(Ev.p).got = 0
       /\ pend' = [pend EXCEPT ![Ev.p].got = Ev.v, ![Ev.p].c = Ev.c] /\ UNCHANGED <<order, due, made, gone, scope>>
(* a connection goes back exactly when its scope ends *)
Back == /\ Ev.e = "back" /\ Ev.p \in DOMAIN pend \cap DOMAIN scope /\ P(Ev.p).op = "exit" /\ ~P(Ev.p).back /\ scope[Ev.p] # <<>>
        /\ scope[Ev.p][Len(scope[Ev.p])] = <<Ev.v, Ev.c>>
        /\ pend' = [pend EXCEPT ![Ev.p].back = TRUE] /\ UNCHANGED <<order, due, made, gone, scope>>
Scopes(p) == IF p \in DOMAIN scope THEN scope[p] ELSE <<>>
Ret == /\ Ev.e = "ret" /\ UNCHANGED <<order, due, made, gone>> /\ pend' = Drop(pend, Ev.p)
       /\ LET q == P(Ev.p) IN
          CASE q.op = "exit" -> q.back /\ Ev.r = q.v /\ scope' = [scope EXCEPT ![Ev.p] = SubSeq(@, 1, Len(@) - 1)]
            [] q.op = "enter" -> /\ q.lin /\ q.owes \cap due = {}
                                 /\ (IF q.got = 0 THEN Ev.r < 0 /\ scope' = scope
                                     ELSE Ev.r = q.c /\ scope' = Set(scope, Ev.p, Append(Scopes(Ev.p), <<q.got, q.c>>)))
            [] OTHER -> q.lin /\ q.owes \cap due = {} /\ Ev.r = q.r /\ {Ev.ks[i] : i \in 1..Len(Ev.ks)} = q.ks /\ scope' = scope
Next == /\ l <= Len(Traces[t].ev)
        /\ \/ Step /\ (Inv \/ Made \/ Failed \/ Shut \/ Got \/ Back \/ Ret)
           \/ Lin
TraceSpec == Init /\ [][Next]_vars
(* a trace is explained once its end is reached with nothing left open *)
Report == (l > Len(Traces[t].ev) /\ due = {}) => PrintT(ToJson(<<"OK", t>>))
Progress == PrintT(ToJson(<<"AT", t, l>>))
=============================================================================
