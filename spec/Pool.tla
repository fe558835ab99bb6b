-------------------------------- MODULE Pool --------------------------------
(* Design of the connection pool: a LIFO store of idle connections, a counter under a lock, and borrowers whose       *)
(* operations are interleaved action by action.  Every observable event is fed to PoolAbs.                            *)
EXTENDS PoolAbs, Json
CONSTANTS Procs, Cfg, Initial, NConn, NOps, Deaths, Fails, Closers, Emit, Defect
VARIABLES pc, hold, todo, store, closed, num, made, shut, dead, lent, ops, fails, mon, bad, lab
world == <<pc, hold, todo, store, closed, num, made, shut, dead, lent, ops, fails>>
vars == <<world, mon, bad, lab>>
view == <<world, mon, bad>>
gview == world
proj == [pc |-> pc, hold |-> hold, todo |-> todo, store |-> store, closed |-> closed, num |-> num, made |-> made, shut |-> shut,
         dead |-> dead, lent |-> lent, ops |-> ops, fails |-> fails]
None == 0
Cfgs == [max |-> Cfg[1], maxfree |-> Cfg[2], minfree |-> Cfg[3], block |-> FALSE, loose |-> FALSE]
Feed(evs) == LET F[i \in 0..Len(evs)] == IF i = 0 THEN <<mon, bad>>
                                         ELSE <<Apply(F[i-1][1], evs[i]), F[i-1][2] \cup Bad(F[i-1][1], evs[i])>>
             IN mon' = F[Len(evs)][1] /\ bad' = F[Len(evs)][2]
State(n, st) == [e |-> "state", num |-> n, idle |-> Len(st)]
Lab(a, p, x) == lab' = <<a, p, x>>
Init == /\ pc = [p \in Procs |-> "idle"] /\ hold = [p \in Procs |-> None] /\ todo = [p \in Procs |-> ""]
        /\ store = [i \in 1..Initial |-> i] /\ closed = FALSE /\ num = Initial /\ made = Initial /\ shut = {} /\ dead = {}
        /\ lent = [p \in Procs |-> {}] /\ ops = 0 /\ fails = 0 /\ lab = <<"init", 0, 0>> /\ bad = {}
        /\ mon = [Start0(Cfgs) EXCEPT !.made = 1..Initial, !.num = Initial, !.idle = Initial]
Goto(p, x) == pc' = [pc EXCEPT ![p] = x]
Keep(c) == hold' = [hold EXCEPT ![c[1]] = c[2]]
Snap == <<State(num', store')>>
Ret(p, op, c, err) == [e |-> "ret", p |-> p, op |-> op, c |-> c, err |-> err]
Inv(p, op, c) == [e |-> "inv", p |-> p, op |-> op, c |-> c]
(* ---- borrowing *)
GetCall(p) == /\ pc[p] = "idle" /\ ops < NOps /\ ops' = ops + 1 /\ Goto(p, "pop") /\ Lab("get", p, 0)
              /\ Feed(<<Inv(p, "get", 0)>>) /\ UNCHANGED <<hold, todo, store, closed, num, made, shut, dead, lent, fails>>
Return(p, evs, c, err) == /\ Goto(p, "idle") /\ hold' = [hold EXCEPT ![p] = None] /\ todo' = [todo EXCEPT ![p] = ""]
                          /\ lent' = IF err = "" THEN [lent EXCEPT ![p] = @ \cup {c}] ELSE lent
                          /\ Feed(evs \o <<Ret(p, "get", c, err), State(num', store')>>)
Pop(p) == /\ pc[p] = "pop" /\ Lab("pop", p, 0) /\ UNCHANGED <<num, made, shut, dead, ops, fails, closed>>
          /\ IF closed THEN /\ UNCHANGED store /\ Return(p, <<>>, None, "closed")
             ELSE IF store = <<>> THEN /\ UNCHANGED <<store, hold, lent>> /\ Goto(p, "count") /\ todo' = [todo EXCEPT ![p] = "lend"] /\ Feed(Snap)
             ELSE /\ hold' = [hold EXCEPT ![p] = store[Len(store)]]
                  /\ store' = IF Defect = "peek" THEN store ELSE SubSeq(store, 1, Len(store) - 1)
                  /\ Goto(p, "top") /\ UNCHANGED <<todo, lent>> /\ Feed(Snap)
Top(p) == /\ pc[p] = "top" /\ Lab("top", p, 0) /\ UNCHANGED <<num, made, shut, dead, ops, fails, closed, store>>
          /\ IF closed THEN Return(p, <<>>, None, "closed")
             ELSE IF Len(store) < Cfgs.minfree THEN Goto(p, "count") /\ todo' = [todo EXCEPT ![p] = "top"] /\ UNCHANGED <<hold, lent>> /\ Feed(Snap)
             ELSE Goto(p, "check") /\ UNCHANGED <<hold, todo, lent>> /\ Feed(Snap)
(* the limit is checked and the connection is counted in one go *)
Count(p) == /\ pc[p] = "count" /\ Lab("count", p, 0) /\ UNCHANGED <<made, shut, dead, ops, fails, closed, store>>
            /\ IF num >= Cfgs.max THEN num' = num /\ Return(p, <<>>, None, "empty")
               ELSE IF Defect = "noLock" THEN num' = num /\ Goto(p, "count2") /\ UNCHANGED <<hold, todo, lent>> /\ Feed(Snap)
               ELSE num' = num + 1 /\ Goto(p, "make") /\ UNCHANGED <<hold, todo, lent>> /\ Feed(Snap)
Count2(p) == /\ pc[p] = "count2" /\ Lab("count2", p, 0) /\ num' = num + 1 /\ Goto(p, "make")
             /\ UNCHANGED <<hold, todo, lent, made, shut, dead, ops, fails, closed, store>> /\ Feed(Snap)
Make(p) == /\ pc[p] = "make" /\ made < NConn /\ made' = made + 1 /\ Lab("make", p, 0)
           /\ UNCHANGED <<num, shut, dead, ops, fails, closed, store>>
           /\ IF todo[p] = "top" THEN Goto(p, "stow") /\ todo' = [todo EXCEPT ![p] = ToString(made + 1)] /\ UNCHANGED <<hold, lent>>
                                      /\ Feed(<<[e |-> "new", c |-> made + 1]>>)
              ELSE Return(p, <<[e |-> "new", c |-> made + 1]>>, made + 1, "")
MakeFails(p) == /\ pc[p] = "make" /\ fails < Fails /\ fails' = fails + 1 /\ Goto(p, "unmake") /\ Lab("fail", p, 0)
                /\ Feed(<<[e |-> "newfail"]>>) /\ UNCHANGED <<hold, todo, store, closed, num, made, shut, dead, lent, ops>>
Unmake(p) == /\ pc[p] = "unmake" /\ num' = (IF Defect = "countFail" THEN num ELSE num - 1) /\ Lab("unmake", p, 0)
             /\ UNCHANGED <<store, closed, made, shut, dead, ops, fails>>
             /\ IF todo[p] = "top" /\ Defect # "lose" THEN Goto(p, "check") /\ UNCHANGED <<hold, todo, lent>> /\ Feed(Snap)
                ELSE Return(p, <<>>, None, "create")
Stowed(p) == CHOOSE c \in 1..made : ToString(c) = todo[p]
Stow(p) == /\ pc[p] = "stow" /\ Lab("stow", p, 0) /\ UNCHANGED <<closed, made, dead, ops, fails, hold, lent>>
           /\ todo' = [todo EXCEPT ![p] = ""]
           /\ IF closed THEN UNCHANGED <<store, num>> /\ shut' = shut \cup {Stowed(p)} /\ Goto(p, "check") /\ Feed(<<[e |-> "shut", c |-> Stowed(p)]>>)
              ELSE IF Len(store) < Cfgs.maxfree THEN store' = Append(store, Stowed(p)) /\ UNCHANGED <<num, shut>> /\ Goto(p, "check") /\ Feed(Snap)
              ELSE num' = num - 1 /\ shut' = shut \cup {Stowed(p)} /\ UNCHANGED store /\ Goto(p, "check")
                   /\ Feed(<<State(num', store), [e |-> "shut", c |-> Stowed(p)]>>)
Check(p) == /\ pc[p] = "check" /\ Lab("check", p, 0) /\ UNCHANGED <<num, made, dead, ops, fails, closed, store>>
            /\ IF hold[p] \in dead /\ Defect # "noCheck"
               THEN /\ shut' = shut \cup {hold[p]}
                    /\ (IF Defect = "dropKeep" THEN Return(p, <<[e |-> "shut", c |-> hold[p]]>>, hold[p], "")
                        ELSE Goto(p, "drop") /\ UNCHANGED <<hold, todo, lent>> /\ Feed(<<[e |-> "shut", c |-> hold[p]]>>))
               ELSE shut' = shut /\ Return(p, <<>>, hold[p], "")
Drop(p) == /\ pc[p] = "drop" /\ num' = num - 1 /\ hold' = [hold EXCEPT ![p] = None] /\ Goto(p, "count") /\ todo' = [todo EXCEPT ![p] = "lend"]
           /\ Lab("drop", p, 0) /\ UNCHANGED <<store, closed, made, shut, dead, lent, ops, fails>> /\ Feed(Snap)
(* ---- returning *)
PutCall(p) == \E c \in lent[p] : /\ pc[p] = "idle" /\ Goto(p, "put") /\ hold' = [hold EXCEPT ![p] = c] /\ lent' = [lent EXCEPT ![p] = @ \ {c}]
                                 /\ Feed(<<Inv(p, "put", c)>>) /\ Lab("put", p, c) /\ UNCHANGED <<todo, store, closed, num, made, shut, dead, ops, fails>>
PutRet(p) == Goto(p, "idle") /\ hold' = [hold EXCEPT ![p] = None]
Put(p) == /\ pc[p] = "put" /\ Lab("putin", p, 0) /\ UNCHANGED <<todo, closed, num, made, shut, dead, lent, ops, fails>>
          /\ IF closed THEN UNCHANGED <<store, hold>> /\ Goto(p, "putshut") /\ Feed(Snap)
             ELSE IF Len(store) < Cfgs.maxfree THEN store' = Append(store, hold[p]) /\ PutRet(p) /\ Feed(<<State(num, store'), Ret(p, "put", 0, ""), State(num, store')>>)
             ELSE UNCHANGED <<store, hold>> /\ Goto(p, "surplus") /\ Feed(Snap)
Surplus(p) == /\ pc[p] = "surplus" /\ Lab("surplus", p, 0) /\ num' = (IF Defect = "noDec" THEN num ELSE num - 1) /\ Goto(p, "putshut")
              /\ UNCHANGED <<hold, todo, store, closed, made, shut, dead, lent, ops, fails>> /\ Feed(Snap)
PutShut(p) == /\ pc[p] = "putshut" /\ Lab("putshut", p, 0) /\ shut' = (IF Defect = "keepSurplus" THEN shut ELSE shut \cup {hold[p]}) /\ PutRet(p)
              /\ UNCHANGED <<todo, store, closed, num, made, dead, lent, ops, fails>>
              /\ Feed((IF Defect = "keepSurplus" THEN <<>> ELSE <<[e |-> "shut", c |-> hold[p]]>>) \o <<Ret(p, "put", 0, ""), State(num, store)>>)
(* ---- closing *)
CloseCall(p) == /\ pc[p] = "idle" /\ p \in Closers /\ ~(closed /\ store = <<>>) /\ Goto(p, "close") /\ Lab("close", p, 0) /\ Feed(<<Inv(p, "close", 0)>>)
                /\ UNCHANGED <<hold, todo, store, closed, num, made, shut, dead, lent, ops, fails>>
Close(p) == /\ pc[p] = "close" /\ closed' = TRUE /\ Lab("swap", p, 0) /\ UNCHANGED <<hold, todo, num, made, shut, dead, lent, ops, fails>>
            /\ IF closed \/ Defect = "closeLazy" THEN store' = <<>> /\ Goto(p, "idle") /\ Feed(<<Ret(p, "close", 0, ""), State(num, <<>>)>>)
               ELSE store' = store /\ Goto(p, "drain") /\ Feed(<<State(num, <<>>)>>)
Drain(p) == /\ pc[p] = "drain" /\ Lab("drain", p, 0) /\ UNCHANGED <<hold, todo, closed, num, made, dead, lent, ops, fails>>
            /\ IF store = <<>> THEN UNCHANGED <<store, shut>> /\ Goto(p, "idle") /\ Feed(<<Ret(p, "close", 0, ""), State(num, <<>>)>>)
               ELSE store' = SubSeq(store, 1, Len(store) - 1) /\ shut' = shut \cup {store[Len(store)]} /\ UNCHANGED pc
                    /\ Feed(<<[e |-> "shut", c |-> store[Len(store)]]>>)
(* ---- the peers *)
Lent == UNION {lent[p] : p \in Procs}
Die == \E c \in 1..made : /\ c \notin dead /\ c \notin shut /\ Cardinality(dead) < Deaths /\ dead' = dead \cup {c} /\ Lab("die", 0, c)
                          /\ (c \in Lent \/ \E i \in 1..Len(store) : store[i] = c) /\ Feed(<<[e |-> "die", c |-> c]>>)
                          /\ UNCHANGED <<pc, hold, todo, store, closed, num, made, shut, lent, ops, fails>>
Act(p) == \/ Pop(p) \/ Top(p) \/ Count(p) \/ Count2(p) \/ Make(p) \/ MakeFails(p) \/ Unmake(p) \/ Stow(p) \/ Check(p) \/ Drop(p)
          \/ Put(p) \/ Surplus(p) \/ PutShut(p) \/ Close(p) \/ Drain(p)
Next == Die \/ \E p \in Procs : GetCall(p) \/ PutCall(p) \/ CloseCall(p) \/ Act(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Act(p))
Clean == bad \subseteq {"P16.leak"}
Strict == bad = {}
(* the count is what it says: everything which is idle, lent, or on its way, and what the known deviation has lost *)
Counted == (~closed /\ \A p \in Procs : pc[p] = "idle") => num = Len(store) + Cardinality(Lent) + mon.leaked
Bounded == num <= Cfgs.max /\ Len(store) <= Cfgs.maxfree
Distinct == /\ \A p, q \in Procs : p # q => lent[p] \cap lent[q] = {}
            /\ \A i, j \in 1..Len(store) : i # j => store[i] # store[j]
            /\ \A i \in 1..Len(store) : store[i] \notin Lent
Ends == \A p \in Procs : pc[p] \notin {"idle", "make"} ~> (pc[p] = "idle" \/ made = NConn)
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
=============================================================================
