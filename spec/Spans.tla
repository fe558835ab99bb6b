------------------------------- MODULE Spans -------------------------------
(* Design: threads derive spans; the number is drawn in one atomic step from a counter which the whole family shares by   *)
(* reference, then the span is built.  Defects: what goes wrong when the counter is split, copied or not shared.          *)
EXTENDS SpanAbs, Json
CONSTANTS Procs, MaxNodes, Emit, Defect
VARIABLES pc, kind, par, num, real, cnt, st, wrong, lab
(* real: seq of [pre, n, c, k]: id and the indices of its family's and its children's counter in cnt *)
world == <<pc, kind, par, num, real, cnt>>
vars == <<world, st, wrong, lab>>
view == <<world, st, wrong>>
gview == <<world, st>>
proj == [pc |-> pc, kind |-> kind, par |-> par, num |-> num, real |-> real, cnt |-> cnt]
Init == /\ pc = [p \in Procs |-> "idle"] /\ kind = [p \in Procs |-> "child"] /\ par = [p \in Procs |-> 0] /\ num = [p \in Procs |-> 0]
        /\ real = <<[pre |-> <<>>, n |-> 1, c |-> 1, k |-> 2]>> /\ cnt = <<2, 1>> /\ st = NewNode(Empty, 1, <<>>, 1, "t", {})
        /\ wrong = {} /\ lab = <<"init", 0, 0, "-">>
Live == Len(real) + Cardinality({p \in Procs : pc[p] # "idle"})
Call(p) == \E k \in {"child", "follow"}, a \in 1..Len(real) :
    /\ pc[p] = "idle" /\ Live < MaxNodes /\ pc' = [pc EXCEPT ![p] = "draw"] /\ kind' = [kind EXCEPT ![p] = k] /\ par' = [par EXCEPT ![p] = a]
    /\ lab' = <<"call", p, a, k>> /\ UNCHANGED <<num, real, cnt, st, wrong>>
Counter(p) == IF kind[p] = "child" THEN real[par[p]].k ELSE real[par[p]].c
Abs(p, n) == LET d == Draw(st, kind[p], par[p]) IN st' = d.st /\ wrong' = wrong \cup (IF d.n # n THEN {"number"} ELSE {})
DrawIt(p) == /\ pc[p] = "draw" /\ lab' = <<"draw", p, 0, "-">> /\ UNCHANGED <<kind, par, real>>
             /\ LET c == Counter(p)
                    n == IF Defect = "fixed" /\ kind[p] = "follow" THEN real[par[p]].n + 1 ELSE cnt[c]
                IN /\ num' = [num EXCEPT ![p] = n]
                   /\ IF Defect = "split" THEN cnt' = cnt /\ pc' = [pc EXCEPT ![p] = "bump"] ELSE cnt' = [cnt EXCEPT ![c] = n + 1] /\ pc' = [pc EXCEPT ![p] = "build"]
                   /\ Abs(p, n)
Bump(p) == /\ pc[p] = "bump" /\ cnt' = [cnt EXCEPT ![Counter(p)] = num[p] + 1] /\ pc' = [pc EXCEPT ![p] = "build"] /\ lab' = <<"bump", p, 0, "-">>
           /\ UNCHANGED <<kind, par, num, real, st, wrong>>
Build(p) == LET a == real[par[p]] s == Len(real) + 1
                own == \/ Defect = "perSpan" \/ (Defect = "childOwn" /\ kind[p] = "child") \/ (Defect = "followOwn" /\ kind[p] = "follow") IN
            /\ pc[p] = "build" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ lab' = <<"build", p, s, "-">>
            /\ real' = Append(real, [pre |-> IF kind[p] = "child" THEN a.pre \o <<ToString(a.n)>> ELSE a.pre, n |-> num[p],
                                     c |-> IF own THEN Len(cnt) + 2 ELSE Counter(p), k |-> Len(cnt) + 1])
            /\ cnt' = cnt \o (IF own THEN <<1, num[p] + 1>> ELSE <<1>>)
            /\ st' = Derived(st, kind[p], par[p], s, num[p]) /\ UNCHANGED <<kind, par, num, wrong>>
Act(p) == DrawIt(p) \/ Bump(p) \/ Build(p)
Next == \E p \in Procs : Call(p) \/ Act(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Act(p))
Right == wrong = {}
Unique == \A i, j \in 1..Len(real) : i # j => <<real[i].pre, real[i].n>> # <<real[j].pre, real[j].n>>
Same == \A i \in 1..Len(real) : real[i].pre = st.nodes[i].pre /\ real[i].n = st.nodes[i].n
AbsUnique == Distinct(st)
Ends == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
==============================================================================
