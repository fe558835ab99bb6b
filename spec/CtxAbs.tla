------------------------------ MODULE CtxAbs ------------------------------
(* Span contexts as carried between processes.  An entry of a carrier is [pre, name, val]: whether its key has the trace    *)
(* prefix, the rest of the key (the whole key when it has not), and its value.  A context is [tr, id, bag]; ids are strings, *)
(* and ids as carried are also given in segments, each with its kind: "int" (canonical number), "odd" (some other spelling   *)
(* of a number), "no".                                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqSet(q) == {q[i] : i \in 1..Len(q)}
If(b, x) == IF b THEN {x} ELSE {}
Entries(c) == {<<"sofaTraceId", c.tr>>, <<"sofaRpcId", c.id>>} \cup SeqSet(c.bag)
Traced(q) == {<<q[i].name, q[i].val>> : i \in {i \in 1..Len(q) : q[i].pre}}
Others(q) == {<<q[i].name, q[i].val>> : i \in {i \in 1..Len(q) : ~q[i].pre}}
Names(E) == {e[1] : e \in E}
Over(A, B) == B \cup {a \in A : a[1] \notin Names(B)}
(* writing a context into a carrier *)
BadInject(ev) ==
    IF ev.fmt # "text" THEN If(ev.res # "format", "P20.format") \cup If(SeqSet(ev.after) # SeqSet(ev.before), "P20.format")
    ELSE If(ev.res # "ok", "P20.inject") \cup If(Others(ev.after) # Others(ev.before), "P20.inject")
         \cup If(Traced(ev.after) # Over(Traced(ev.before), Entries(ev.ctx)), "P20.inject")
(* what has to become of a carrier: refused, taken, or either *)
Verdict(ev) == LET k == ev.segs IN
    IF ~ev.map THEN "refuse"
    ELSE IF "sofaRpcId" \in Names(Traced(ev.carrier)) /\ k[Len(k)] = "no" THEN "refuse"
    ELSE IF (\E i \in 1..Len(k) : k[i] # "int") \/ Names(Traced(ev.carrier)) \cap {"reference", "self"} # {} THEN "either"
    ELSE "take"
(* what the context holds then: exactly the carried entries; ids or traces which were not carried are made up *)
Holds(ev) == LET want == Traced(ev.carrier) got == Entries(ev.ctx) IN
    /\ \A w \in want : w \in got \/ (w[1] = "sofaRpcId" /\ \E i \in 1..Len(ev.segs) : ev.segs[i] # "int")
    /\ \A g \in got : g[1] \in Names(want) \cup {"sofaTraceId", "sofaRpcId"}
BadExtract(ev) ==
    IF ev.fmt # "text" THEN If(ev.res # "format", "P20.format")
    ELSE CASE Verdict(ev) = "refuse" -> If(ev.res # "carrier", "P20.malformed")
           [] Verdict(ev) = "either" -> If(ev.res \notin {"carrier", "ok"}, "P20.malformed") \cup If(ev.res = "ok" /\ ~Holds(ev), "P20.extract")
           [] OTHER -> If(ev.res # "ok", "P20.refused") \cup If(ev.res = "ok" /\ ~Holds(ev), "P20.extract")
(* starting a span *)
BadSpan(ev) == If(ev.res # "ok", "P20.span") \cup (IF ev.res # "ok" THEN {} ELSE
    If(ev.name # ev.gname, "P20.name") \cup If(SeqSet(ev.tags) # SeqSet(ev.gtags), "P20.tags") \cup If(ev.timed /\ ev.start # ev.gstart, "P20.start"))
(* a call: the header map on the wire, and the context its service was given *)
Want(ev) == {<<"sofa_head_target_service", ev.iface>>, <<"sofa_head_method_name", ev.meth>>, <<"service", ev.iface>>}
            \cup {<<"sofa_head_target_app", ev.app>>} \cup SeqSet(ev.extra)
BadHeader(ev) == If(~(Want(ev) \subseteq Others(ev.hdr)), "P20.header") \cup If(Traced(ev.hdr) # Entries(ev.ctx), "P20.context")
                 \cup If(Cardinality(SeqSet(ev.hdr)) # Len(ev.hdr), "P20.header")
BadGiven(ev) == If(Entries(ev.got) # Entries(ev.ctx), "P20.given")
Bad(ev) == CASE ev.e = "inject" -> BadInject(ev) [] ev.e = "extract" -> BadExtract(ev) [] ev.e = "span" -> BadSpan(ev)
             [] ev.e = "header" -> BadHeader(ev) [] ev.e = "given" -> BadGiven(ev) [] OTHER -> {}
==============================================================================
