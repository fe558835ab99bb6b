----------------------------- MODULE SpanTrace -----------------------------
(* Recorded derivations of spans, by any number of threads, explained by the sequential specification SpanAbs:            *)
(*   new(s, want, fresh)         a span without reference: id 1 and a new trace, or the id, trace and entries it was given  *)
(*   inv(p, kind, par), ret(p, s)   thread p derives a span from span par                                                  *)
(*   many(kind, par, n)          n spans are derived from span par and not looked at                                       *)
(*   peek(s)                     a span looked at again.  obs: the id, trace and other baggage as read from the real span   *)
EXTENDS SpanAbs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, pend, traces
vars == <<t, l, st, pend, traces>>
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Empty /\ pend = <<>> /\ traces = {}
Ev == Traces[t].ev[l]
PairSet(q) == {q[i] : i \in 1..Len(q)}
Sees(node, o) == o.pre = node.pre /\ o.n = node.n /\ o.tr = node.tr /\ PairSet(o.bag) = node.bag /\ Len(o.bag) = Cardinality(node.bag)
Step == t' = t /\ l' = l + 1
New == /\ Ev.e = "new" /\ UNCHANGED pend
       /\ LET o == Ev.obs IN
          /\ IF Ev.fresh THEN o.pre = <<>> /\ o.n = 1 /\ o.tr \notin traces /\ o.bag = <<>>
             ELSE o.pre = Ev.want.pre /\ o.n = Ev.want.n /\ o.tr = Ev.want.tr /\ PairSet(o.bag) = PairSet(Ev.want.bag)
          /\ st' = NewNode(st, Ev.s, o.pre, o.n, o.tr, PairSet(o.bag)) /\ traces' = traces \cup {o.tr}
Inv == /\ Ev.e = "inv" /\ pend' = Put(pend, Ev.p, [kind |-> Ev.kind, par |-> Ev.par, n |-> 0]) /\ UNCHANGED <<st, traces>>
Lin == /\ Ev.e = "ret" /\ \E p \in DOMAIN pend : /\ pend[p].n = 0
          /\ LET d == Draw(st, pend[p].kind, pend[p].par) IN st' = d.st /\ pend' = [pend EXCEPT ![p].n = d.n]
       /\ UNCHANGED <<t, l, traces>>
Ret == /\ Ev.e = "ret" /\ pend[Ev.p].n > 0 /\ UNCHANGED traces
       /\ st' = Derived(st, pend[Ev.p].kind, pend[Ev.p].par, Ev.s, pend[Ev.p].n)
       /\ Sees(st'.nodes[Ev.s], Ev.obs) /\ pend' = [p \in DOMAIN pend \ {Ev.p} |-> pend[p]]
Peek == Ev.e = "peek" /\ Sees(st.nodes[Ev.s], Ev.obs) /\ UNCHANGED <<st, pend, traces>>
(* n more spans were derived and forgotten: their numbers are used *)
Many == /\ Ev.e = "many" /\ UNCHANGED <<pend, traces>>
        /\ st' = [st EXCEPT !.ctr[Fam(st, Ev.kind, Ev.par)] = @ + Ev.n]
Next == l <= Len(Traces[t].ev) /\ (Lin \/ (Step /\ (New \/ Inv \/ Ret \/ Peek \/ Many)))
TraceSpec == Init /\ [][Next]_vars
Report == l > Len(Traces[t].ev) => PrintT(ToJson(<<"OK", t>>))
Progress == PrintT(ToJson(<<"AT", t, l>>))
==============================================================================
