-------------------------------- MODULE Mesh --------------------------------
(* Design of the mesh client: startup holds a lock while it registers and remembers success; every other operation  *)
(* posts once (listener publication: once per interface, stopping at the first failure).  The mesh answers as it     *)
(* likes.  All interleavings of the threads are checked against MeshAbs.                                             *)
EXTENDS MeshAbs, Json
CONSTANTS Ops,      \* sequence of operations: "startup", "single", "multi"
          Thread,   \* sequence: the thread which runs each operation (in order)
          Emit, Defect
O == 1..Len(Ops)
Want(o) == IF Ops[o] = "startup" THEN << <<APP, "app">> >>
           ELSE IF Ops[o] = "single" THEN << <<"services/x", ToString(o)>> >>
           ELSE << <<"services/x", ToString(o) \o "a">>, <<"services/x", ToString(o) \o "b">> >>
VARIABLES pc, ix, lock, started, res, mon, bad, lab
vars == <<pc, ix, lock, started, res, mon, bad, lab>>
view == <<pc, ix, lock, started, res, mon, bad>>
gview == <<pc, ix, lock, started, res>>
proj == [pc |-> pc, ix |-> ix, lock |-> lock, started |-> started, res |-> res]
Observe(ev) == mon' = Apply(mon, ev) /\ bad' = bad \cup Bad(mon, ev)
Silent == UNCHANGED <<mon, bad>>
Lab(a, x) == lab' = <<a, x>>
Goto(o, p) == pc' = [pc EXCEPT ![o] = p]
Pid(o) == 10 * o + ix[o]

Init == /\ pc = [o \in O |-> "new"] /\ ix = [o \in O |-> 1] /\ lock = 0 /\ started = FALSE /\ res = [o \in O |-> "none"]
        /\ mon = Start0(0) /\ bad = {} /\ lab = <<"init", 0>>
Call(o) == /\ pc[o] = "new" /\ \A x \in O : x < o /\ Thread[x] = Thread[o] => pc[x] = "done"
           /\ Observe([e |-> "call", op |-> o, k |-> Ops[o], cl |-> "c1", want |-> Want(o)])
           /\ Goto(o, IF Ops[o] = "startup" THEN "lock" ELSE "post") /\ Lab("Call", o) /\ UNCHANGED <<ix, lock, started, res>>
Lock(o) == /\ pc[o] = "lock" /\ (lock = 0 \/ Defect = "nolock") /\ lock' = o
           /\ Goto(o, IF started /\ Defect # "forget" THEN "unlock" ELSE "post")
           /\ res' = [res EXCEPT ![o] = IF started THEN "ok" ELSE @]
           /\ Silent /\ Lab("Lock", o) /\ UNCHANGED <<ix, started>>
Post(o) == /\ pc[o] = "post" /\ Observe([e |-> "post", id |-> Pid(o), path |-> Want(o)[ix[o]][1], data |-> Want(o)[ix[o]][2]])
           /\ Goto(o, "wait") /\ Lab("Post", o) /\ UNCHANGED <<ix, lock, started, res>>
Answer(o, good) ==
    /\ pc[o] = "wait" /\ Observe([e |-> "ans", id |-> Pid(o), good |-> good])
    /\ Lab(IF good THEN "Good" ELSE "Bad", o)
    /\ IF good \/ Defect = "swallow"
       THEN /\ ix' = [ix EXCEPT ![o] = @ + 1]
            /\ IF ix[o] < Len(Want(o)) THEN Goto(o, "post") /\ res' = res
               ELSE Goto(o, IF Ops[o] = "startup" THEN "unlock" ELSE "ret") /\ res' = [res EXCEPT ![o] = "ok"]
            /\ started' = (started \/ Ops[o] = "startup")
       ELSE IF Defect = "retry" /\ ix[o] = 1 /\ ~started
       THEN Goto(o, "post") /\ UNCHANGED <<ix, started, res>>
       ELSE /\ Goto(o, IF Ops[o] = "startup" THEN "unlock" ELSE "ret") /\ res' = [res EXCEPT ![o] = "error"]
            /\ UNCHANGED <<ix, started>>
    /\ UNCHANGED lock
Unlock(o) == /\ pc[o] = "unlock" /\ lock' = 0 /\ Goto(o, "ret") /\ Silent /\ Lab("Unlock", o) /\ UNCHANGED <<ix, started, res>>
Ret(o) == /\ pc[o] = "ret" /\ Observe([e |-> "ret", op |-> o, ok |-> res[o] = "ok"]) /\ Goto(o, "done") /\ Lab("Ret", o)
          /\ UNCHANGED <<ix, lock, started, res>>
Next == \E o \in O : Call(o) \/ Lock(o) \/ Post(o) \/ Answer(o, TRUE) \/ Answer(o, FALSE) \/ Unlock(o) \/ Ret(o)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Clean == bad = {}
OneRegistration == Cardinality({p \in DOMAIN mon.post : mon.post[p].cl = "c1" /\ mon.post[p].res = "good"}) <= 1
AllEnd == <>(\A o \in O : pc[o] = "done")
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
==============================================================================
