-------------------------------- MODULE Lru --------------------------------
(* Design of the pool manager: requests look up, make and store a pool under one lock; what had to make room is closed *)
(* by whoever pushed it out, after the container was changed.  The abstract order is updated where the change happens.  *)
EXTENDS LruAbs, Json
CONSTANTS Procs, AllKeys, MaxPools, NOps, Dels, Emit, Defect
VARIABLES pc, key, res, todo, lock, cont, made, shuts, ops, order, wrong, lab
world == <<pc, key, res, todo, lock, cont, made, shuts, ops>>
vars == <<world, order, wrong, lab>>
view == <<world, order, wrong>>
gview == world
proj == [pc |-> pc, key |-> key, res |-> res, todo |-> todo, lock |-> lock, cont |-> cont, made |-> made, shuts |-> shuts, ops |-> ops]
Init == /\ pc = [p \in Procs |-> "idle"] /\ key = [p \in Procs |-> 0] /\ res = [p \in Procs |-> 0] /\ todo = [p \in Procs |-> <<>>]
        /\ lock = 0 /\ cont = <<>> /\ made = 0 /\ shuts = <<>> /\ ops = 0 /\ order = <<>> /\ wrong = {} /\ lab = <<"init", 0, 0>>
Lab(a, p, k) == lab' = <<a, p, k>>
Goto(p, x) == pc' = [pc EXCEPT ![p] = x]
NoAbs == UNCHANGED <<order, wrong>>
Call(p) == \E k \in AllKeys : /\ pc[p] = "idle" /\ ops < NOps /\ ops' = ops + 1 /\ Goto(p, "lock") /\ key' = [key EXCEPT ![p] = k] /\ Lab("pool", p, k)
                              /\ NoAbs /\ UNCHANGED <<res, todo, lock, cont, made, shuts>>
Lock(p) == /\ pc[p] = "lock" /\ (lock = 0 \/ Defect = "noLock") /\ lock' = p /\ Goto(p, "look") /\ Lab("lock", p, 0)
           /\ NoAbs /\ UNCHANGED <<key, res, todo, cont, made, shuts, ops>>
Look(p) == /\ pc[p] = "look" /\ Lab("look", p, 0) /\ UNCHANGED <<key, todo, made, shuts, ops>>
           /\ IF key[p] \in Keys(cont)
              THEN /\ cont' = (IF Defect = "noTouch" THEN cont ELSE Touch(cont, key[p])) /\ res' = [res EXCEPT ![p] = cont[At(cont, key[p])][2]]
                   /\ lock' = 0 /\ Goto(p, "idle")
                   /\ order' = (IF key[p] \in Keys(order) THEN Touch(order, key[p]) ELSE order)
                   /\ wrong' = wrong \cup (IF ~(key[p] \in Keys(order)) \/ order[At(order, key[p])][2] # cont[At(cont, key[p])][2] THEN {"other"} ELSE {})
              ELSE Goto(p, "make") /\ UNCHANGED <<res, lock, cont>> /\ NoAbs
Make(p) == /\ pc[p] = "make" /\ made' = made + 1 /\ shuts' = Append(shuts, 0) /\ res' = [res EXCEPT ![p] = made + 1] /\ Goto(p, "store") /\ Lab("make", p, 0)
           /\ NoAbs /\ UNCHANGED <<key, todo, lock, cont, ops>>
StoreIt(p) == LET x == Store(cont, MaxPools, key[p], res[p])
                  y == Store(order, MaxPools, key[p], res[p])
                  out == IF Defect = "evictNew" /\ Len(cont) = MaxPools /\ key[p] \notin Keys(cont)
                         THEN Res(Append(SubSeq(cont, 1, Len(cont) - 1), <<key[p], res[p]>>), {cont[Len(cont)][2]}, 0, {}) ELSE x
              IN /\ pc[p] = "store" /\ cont' = out.order /\ todo' = [todo EXCEPT ![p] = [i \in 1..Cardinality(out.out) |-> CHOOSE v \in out.out : TRUE]]
                 /\ Goto(p, "shut") /\ Lab("store", p, 0) /\ order' = y.order
                 /\ wrong' = wrong \cup (IF key[p] \in Keys(order) THEN {"twoPools"} ELSE {}) \cup (IF y.out # out.out THEN {"evicted"} ELSE {})
                 /\ UNCHANGED <<key, res, lock, made, shuts, ops>>
ShutIt(p) == /\ pc[p] = "shut" /\ Lab("shut", p, 0) /\ NoAbs /\ UNCHANGED <<key, res, cont, made, ops>>
             /\ IF todo[p] = <<>> THEN Goto(p, "idle") /\ lock' = 0 /\ UNCHANGED <<todo, shuts>>
                ELSE /\ shuts' = [shuts EXCEPT ![todo[p][1]] = @ + 1] /\ todo' = [todo EXCEPT ![p] = IF Defect = "shutTwice" /\ shuts[@[1]] = 0 THEN @ ELSE Tail(@)]
                     /\ UNCHANGED <<pc, lock>>
(* deleting and clearing: by the container's own lock *)
Del(p) == \E k \in Keys(cont) : /\ pc[p] = "idle" /\ Dels /\ (lock = 0 \/ Defect = "noLock") /\ ops < NOps /\ ops' = ops + 1
             /\ cont' = Without(cont, k) /\ order' = Without(order, k) /\ todo' = [todo EXCEPT ![p] = <<cont[At(cont, k)][2]>>] /\ Goto(p, "dispose")
             /\ Lab("del", p, k) /\ UNCHANGED <<key, res, lock, made, shuts, wrong>>
Clear(p) == /\ pc[p] = "idle" /\ Dels /\ (lock = 0 \/ Defect = "noLock") /\ ops < NOps /\ ops' = ops + 1 /\ cont # <<>>
            /\ cont' = <<>> /\ order' = <<>> /\ todo' = [todo EXCEPT ![p] = [i \in 1..Len(cont) |-> cont[i][2]]] /\ Goto(p, "dispose")
            /\ Lab("clear", p, 0) /\ UNCHANGED <<key, res, lock, made, shuts, wrong>>
Dispose(p) == /\ pc[p] = "dispose" /\ Lab("dispose", p, 0) /\ NoAbs /\ UNCHANGED <<key, res, lock, cont, made, ops>>
              /\ IF todo[p] = <<>> THEN Goto(p, "idle") /\ UNCHANGED <<todo, shuts>>
                 ELSE shuts' = [shuts EXCEPT ![todo[p][1]] = @ + 1] /\ todo' = [todo EXCEPT ![p] = Tail(@)] /\ UNCHANGED pc
Act(p) == Lock(p) \/ Look(p) \/ Make(p) \/ StoreIt(p) \/ ShutIt(p) \/ Dispose(p)
Next == \E p \in Procs : Call(p) \/ Del(p) \/ Clear(p) \/ Act(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Act(p))
Right == wrong = {}
Same == cont = order
Bounded == Len(cont) <= MaxPools /\ Cardinality(Keys(cont)) = Len(cont)
Owed == UNION {{todo[p][i] : i \in 1..Len(todo[p])} : p \in Procs}
InHand == {res[p] : p \in {p \in Procs : pc[p] = "store"}}
(* every pool is closed at most once, a retained one never, and one which is not retained is closed or about to be *)
Closed == \A v \in 1..made : /\ shuts[v] <= 1 /\ (Holds(cont, v) => shuts[v] = 0)
                             /\ (~Holds(cont, v) /\ v \notin InHand) => (shuts[v] = 1 \/ v \in Owed)
Ends == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
=============================================================================
