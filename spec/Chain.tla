------------------------------- MODULE Chain -------------------------------
(* Design: a context handed along a chain of processes.  Each hop writes its context into the header map of a call (which   *)
(* holds other entries and may hold entries of an earlier call), the map travels, and the next process reads its context.   *)
(* Keys are sequences of parts; a traced key is the part "P" followed by the entry's name.                                 *)
EXTENDS CtxAbs
CONSTANTS Hops, Defect
Parts == {"P", "a"}
NamesM == {<<"a">>, <<"P">>, <<"a", "P">>, <<"P", "a">>, <<>>}
Keys == NamesM \cup {<<"P", "P">>, <<"P", "P", "a">>, <<"P", "a", "P">>}
Vals == {"", "v", "w"}
VARIABLES hop, first, ctx, car, phase, bad
vars == <<hop, first, ctx, car, phase, bad>>
(* a context: set of <<name, value>>, names distinct, trace and span id always there *)
Base == {<<<<"T">>, "t">>, <<<<"I">>, "1">>}
Bags == {{}} \cup {{<<n, v>>} : n \in NamesM, v \in Vals} \cup {{<<n, "v">>, <<m, "w">>} : n \in NamesM, m \in NamesM}
Fun(E) == \A e, f \in E : e[1] = f[1] => e = f
Pres == {{}} \cup {{<<k, v>>} : k \in Keys \cup {<<"P", "T">>, <<"T">>}, v \in {"", "old"}} \cup {{<<<<"P", "a">>, "old">>, <<<<"a">>, "old">>}}
Init == /\ \E b \in Bags : Fun(b) /\ first = Base \cup b
        /\ hop = 1 /\ ctx = first /\ car = {} /\ phase = "call" /\ bad = {}
Traced0(k) == k # <<>> /\ Head(k) = "P"
(* CtxAbs names the two ids in strings; here they are the entries <<"T">> and <<"I">>: judged over the whole entry sets *)
InjOk(pre, c, post) == /\ {e \in post : ~Traced0(e[1])} = {e \in pre : ~Traced0(e[1])}
                       /\ Over({<<Tail(e[1]), e[2]>> : e \in {e \in pre : Traced0(e[1])}}, c) = {<<Tail(e[1]), e[2]>> : e \in {e \in post : Traced0(e[1])}}
ExtOk(cr, c) == c = {<<Tail(e[1]), e[2]>> : e \in {e \in cr : Traced0(e[1])}}
Put(pre, k, v) == {e \in pre : e[1] # k} \cup {<<k, v>>}
RECURSIVE Write(_, _)
Write(pre, c) == IF c = {} THEN pre ELSE
    LET e == CHOOSE e \in c : TRUE
        k == IF Defect = "noPrefix" THEN e[1] ELSE <<"P">> \o e[1]
        skip == (Defect = "dropEmpty" /\ e[2] = "") \/ (Defect = "keepOld" /\ \E o \in pre : o[1] = k)
    IN Write(IF skip THEN pre ELSE Put(pre, k, e[2]), c \ {e})
RECURSIVE Strip(_)
Strip(k) == IF k # <<>> /\ Head(k) = "P" THEN Strip(Tail(k)) ELSE k
Mine(k) == CASE Defect = "anywhere" -> \E i \in 1..Len(k) : k[i] = "P"
             [] Defect = "leak" -> TRUE
             [] OTHER -> Traced0(k)
Name(k) == CASE Defect = "stripAll" -> Strip(k) [] Defect = "lastPart" -> (IF Len(k) < 2 THEN Tail(k) ELSE <<k[Len(k)]>>)
             [] OTHER -> IF Traced0(k) THEN Tail(k) ELSE k
Read(cr) == {<<Name(e[1]), e[2]>> : e \in {e \in cr : Mine(e[1])}}
Call == /\ phase = "call" /\ hop < Hops
        /\ \E pre \in Pres :
             LET q == Write(pre, ctx) IN /\ car' = q /\ bad' = bad \cup If(~InjOk(pre, ctx, q), "P20.inject")
        /\ phase' = "wire" /\ UNCHANGED <<hop, first, ctx>>
Serve == /\ phase = "wire" /\ LET c == Read(car) IN ctx' = c /\ bad' = bad \cup If(~ExtOk(car, c), "P20.extract")
         /\ hop' = hop + 1 /\ phase' = "call" /\ UNCHANGED <<first, car>>
Next == Call \/ Serve
Spec == Init /\ [][Next]_vars
Clean == bad = {}
(* nothing of the first context is ever lost on the way *)
Kept == \A e \in first : phase = "call" => e \in ctx
(* and nothing but what an earlier call left in the map is added *)
Bounded == Fun(ctx) /\ Fun(car)
=============================================================================
