------------------------------ MODULE EndToEnd ------------------------------
(* Design, composed: clients share one id counter; each has one connection to the listener; frames of a connection arrive  *)
(* in order, are dispatched to at most Workers services at a time, which end in any order; replies go back on the request's *)
(* connection and are matched by id.  Callers may give up, then late replies arrive for nobody.                          *)
EXTENDS EndAbs, Json
CONSTANTS Kind,      \* sequence over calls: two / one / boom / lost (addresses no service)
          ClientOf, KeyOf, Workers, IdMod, GiveUps, Emit, Defect
C == 1..Len(Kind)
Cl == {ClientOf[c] : c \in C}
VARIABLES pc, id, ctr, out, queue, tasks, back, ended, waiting, ngive, mon, bad, lab
world == <<pc, id, ctr, out, queue, tasks, back, ended, waiting, ngive>>
vars == <<world, mon, bad, lab>>
view == <<world, mon, bad>>
gview == world
proj == [pc |-> pc, id |-> id, out |-> out, queue |-> queue, tasks |-> tasks, back |-> back, waiting |-> waiting, n |-> ngive, ctr |-> ctr]
Init == /\ pc = [c \in C |-> "new"] /\ id = [c \in C |-> -1] /\ ctr = 0 /\ out = [k \in Cl |-> <<>>] /\ queue = <<>> /\ tasks = {}
        /\ back = [k \in Cl |-> <<>>] /\ ended = {} /\ waiting = [k \in Cl |-> {}] /\ ngive = 0 /\ mon = Start0 /\ bad = {} /\ lab = <<"init", 0>>
RECURSIVE Feed(_, _, _)
Feed(m, b, evs) == IF evs = <<>> THEN <<m, b>> ELSE Feed(Apply(m, Head(evs)), b \cup Bad(m, Head(evs)), Tail(evs))
Observe(evs) == LET r == Feed(mon, bad, evs) IN mon' = r[1] /\ bad' = r[2]
Silent == UNCHANGED <<mon, bad>>
Key(c) == "k" \o ToString(KeyOf[c])
Res(c) == "r" \o ToString(c)       \* every execution's result is its own
Healthy(c) == Kind[c] \in {"two", "one"} /\ GiveUps = 0
(* the client: an id is drawn, the waiter is registered, the frame is written *)
Call(c) == /\ pc[c] = "new" /\ lab' = <<"call", c>>
           /\ pc' = [pc EXCEPT ![c] = IF Kind[c] = "one" THEN "done" ELSE "wait"]
           /\ id' = [id EXCEPT ![c] = ctr] /\ ctr' = (IF Defect = "sameId" /\ c % 2 = 1 THEN ctr ELSE (ctr + 1) % IdMod)
           /\ out' = [out EXCEPT ![ClientOf[c]] = Append(@, [c |-> c, id |-> ctr])]
           /\ waiting' = [waiting EXCEPT ![ClientOf[c]] = IF Kind[c] = "one" THEN @ ELSE {w \in @ : w[1] # ctr} \cup {<<ctr, c>>}]
           /\ Observe(<<[e |-> "call", c |-> c, key |-> Key(c), tag |-> IF Kind[c] = "lost" THEN "" ELSE "s", ctx |-> <<>>, oneway |-> Kind[c] = "one",
                         ok |-> Healthy(c), strict |-> TRUE, must |-> TRUE]>>
                      \o (IF Kind[c] = "one" THEN <<[e |-> "ret", c |-> c, ok |-> TRUE, val |-> "none"]>> ELSE <<>>))
           /\ UNCHANGED <<queue, tasks, back, ended, ngive>>
Reply(k, m) == back' = [back EXCEPT ![k] = Append(@, m)]
(* the listener: frames are taken one after another *)
Take(k) == /\ out[k] # <<>> /\ LET m == Head(out[k]) IN
              /\ out' = [out EXCEPT ![k] = Tail(@)] /\ lab' = <<"take", m.c>>
              /\ IF Kind[m.c] = "lost" THEN Reply(k, [id |-> m.id, ok |-> FALSE, val |-> ""]) /\ UNCHANGED queue
                 ELSE queue' = Append(queue, m) \o (IF Defect = "again" /\ m.c = 2 THEN <<m>> ELSE <<>>) /\ UNCHANGED back
           /\ UNCHANGED <<pc, id, ctr, tasks, ended, waiting, ngive>> /\ Silent
Work == /\ queue # <<>> /\ Cardinality(tasks) < Workers /\ lab' = <<"start", Head(queue).c>>
        /\ LET x == Cardinality(tasks) + Cardinality(ended) + 1 m == Head(queue) IN
           tasks' = tasks \cup {[c |-> m.c, id |-> m.id, x |-> x]} /\ Observe(<<[e |-> "start", x |-> x, key |-> Key(m.c), tag |-> "s", ctx |-> <<>>]>>)
        /\ queue' = Tail(queue) /\ UNCHANGED <<pc, id, ctr, out, back, ended, waiting, ngive>>
Finish == \E w \in tasks : /\ tasks' = tasks \ {w} /\ ended' = ended \cup {w.x} /\ lab' = <<"finish", w.c>>
             /\ LET rid == IF Defect = "lastId" /\ queue # <<>> THEN queue[Len(queue)].id ELSE w.id
                    k == IF Defect = "lastConn" THEN ClientOf[Len(Kind)] ELSE ClientOf[w.c]
                    res == IF Kind[w.c] = "boom" THEN "!" ELSE Res(w.c)
                IN /\ Observe(<<[e |-> "fin", x |-> w.x, res |-> res]>>)
                   /\ IF Kind[w.c] = "one" \/ (Defect = "dropReply" /\ w.c = 1) THEN UNCHANGED back
                      ELSE Reply(k, [id |-> rid, ok |-> res # "!", val |-> res])
             /\ UNCHANGED <<pc, id, ctr, out, queue, waiting, ngive>>
(* the client takes a reply: it belongs to the call waiting for its id *)
Recv(k) == /\ back[k] # <<>> /\ LET m == Head(back[k]) ws == {w \in waiting[k] : w[1] = m.id} IN
              /\ back' = [back EXCEPT ![k] = Tail(@)]
              /\ IF ws = {} THEN lab' = <<"recv", 0>> /\ Silent /\ UNCHANGED <<pc, waiting>>
                 ELSE LET c == (CHOOSE w \in ws : TRUE)[2] IN
                      /\ lab' = <<"recv", c>> /\ pc' = [pc EXCEPT ![c] = "done"] /\ waiting' = [waiting EXCEPT ![k] = @ \ ws]
                      /\ Observe(<<[e |-> "ret", c |-> c, ok |-> m.ok, val |-> m.val]>>)
           /\ UNCHANGED <<id, ctr, out, queue, tasks, ended, ngive>>
(* a caller gives up *)
GiveUp(c) == /\ pc[c] = "wait" /\ ngive < GiveUps /\ ngive' = ngive + 1 /\ pc' = [pc EXCEPT ![c] = "done"] /\ lab' = <<"giveup", c>>
             /\ waiting' = [waiting EXCEPT ![ClientOf[c]] = IF Defect = "keep" THEN @ ELSE {w \in @ : w[2] # c}]
             /\ Observe(<<[e |-> "ret", c |-> c, ok |-> FALSE, val |-> ""]>>) /\ UNCHANGED <<id, ctr, out, queue, tasks, back, ended>>
Quiet == (\A c \in C : pc[c] # "new") /\ (\A k \in Cl : out[k] = <<>> /\ back[k] = <<>>) /\ queue = <<>> /\ tasks = {}
Over == /\ Quiet /\ lab[1] # "over" /\ lab' = <<"over", 0>> /\ Observe(<<[e |-> "over"]>>) /\ UNCHANGED world
Act == Work \/ Finish \/ (\E k \in Cl : Take(k) \/ Recv(k)) \/ \E c \in C : Call(c)
Next == Act \/ Over \/ \E c \in C : GiveUp(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Act)
Clean == bad = {}
Ends == <>(\A c \in C : pc[c] = "done")
EmitEdge == (Emit /\ lab'[1] # "over") => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
=============================================================================
