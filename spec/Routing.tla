------------------------------- MODULE Routing -------------------------------
(* The service map shared by all clients of a process: static entries, entries made by subscribing, the default.    *)
(* An operation's event carries its outcome; Bad compares it with the map.  Also explored as a state graph: every    *)
(* edge is replayed on the real clients.                                                                             *)
(*   addresses: "" none, "mesh", or another name; a name starting with "h:" is a bare host                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ifaces, Addrs, Emit
If(c, x) == IF c THEN {x} ELSE {}

(* ---- abstract operations on a map m: Ifaces -> address or "" *)
Get(m, i) == IF i \in DOMAIN m THEN m[i] ELSE ""
Put(m, i, a) == (i :> a) @@ m
SetStatic(m, i, a) == IF Get(m, i) # "" THEN m ELSE Put(m, i, a)
Resolve(m, i) == IF Get(m, i) = "" THEN "mesh" ELSE Get(m, i)
(* infs: sequence of interfaces; good[k]: whether the mesh accepts the k-th *)
RECURSIVE Sub(_, _, _), Unsub(_, _, _)
Sub(m, infs, good) ==
    IF infs = <<>> THEN m
    ELSE Sub(IF good[1] THEN SetStatic(m, infs[1], "mesh") ELSE m, Tail(infs), Tail(good))
Unsub(m, infs, good) ==
    IF infs = <<>> THEN m
    ELSE Unsub(IF good[1] THEN Put(m, infs[1], "") ELSE m, Tail(infs), Tail(good))

(* ---- trace events: set(i, a, ok), sub(mesh, infs, good, raised, posts), unsub(..), get(i, a) *)
ApplyR(m, ev) ==
    CASE ev.e = "set" -> SetStatic(m, ev.i, ev.a)
      [] ev.e = "sub" -> IF ev.mesh THEN Sub(m, ev.infs, ev.good) ELSE m
      [] ev.e = "unsub" -> IF ev.mesh THEN Unsub(m, ev.infs, ev.good) ELSE m
      [] OTHER -> m
BadR(m, ev) ==
    CASE ev.e = "set" -> If(ev.ok # (Get(m, ev.i) = ""), "P22.overwritten")
      [] ev.e \in {"sub", "unsub"} ->
            If(ev.raised, "P22.raised")
            \cup If(ev.posts # IF ev.mesh THEN ev.infs ELSE <<>>, "P22.posts")
      [] ev.e = "new" -> If(ev.raised, "P22.raised")
      [] ev.e = "get" -> If(ev.a # Resolve(m, ev.i), "P22.address")
      [] OTHER -> {}

(* ---- the state graph *)
VARIABLES m, lab
Lists == {<<i>> : i \in Ifaces} \cup {<<i, j>> : i \in Ifaces, j \in Ifaces}
Goods(n) == [1..n -> BOOLEAN]
Init == m = [i \in Ifaces |-> ""] /\ lab = <<"init">>
Static == \E i \in Ifaces, a \in Addrs : m' = SetStatic(m, i, a) /\ lab' = <<"set", i, a>>
Subscribe == \E infs \in Lists : \E g \in Goods(Len(infs)) : m' = Sub(m, infs, g) /\ lab' = <<"sub", infs, g>>
Unsubscribe == \E infs \in Lists : \E g \in Goods(Len(infs)) : m' = Unsub(m, infs, g) /\ lab' = <<"unsub", infs, g>>
NoMesh == \E infs \in Lists : \E k \in {"sub", "unsub"} : m' = m /\ lab' = <<"nomesh", k, infs>>
Next == Static \/ Subscribe \/ Unsubscribe \/ NoMesh
Spec == Init /\ [][Next]_<<m, lab>>
gview == m
TypeOK == \A i \in Ifaces : m[i] \in Addrs \cup {"", "mesh"}
(* an existing mapping changes only by unsubscribing *)
NeverOverwritten == [][\A i \in Ifaces : m[i] # "" /\ m'[i] # m[i] => m'[i] = "" /\ lab'[1] = "unsub"]_<<m, lab>>
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", m, lab', m'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", m>>))
==============================================================================
