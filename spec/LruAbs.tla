------------------------------- MODULE LruAbs -------------------------------
(* Sequential specification of the container of pools: a sequence of <<key, pool>>, least recently requested first.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Keys(o) == {o[i][1] : i \in 1..Len(o)}
Holds(o, v) == \E i \in 1..Len(o) : o[i][2] = v
At(o, k) == CHOOSE i \in 1..Len(o) : o[i][1] = k
Without(o, k) == SelectSeq(o, LAMBDA x : x[1] # k)
Touch(o, k) == Append(Without(o, k), o[At(o, k)])
Res(o, out, r, ks) == [order |-> o, out |-> out, r |-> r, ks |-> ks]
(* storing: what was stored under the key, or the least recently requested entry, goes *)
Store(o, max, k, v) == IF k \in Keys(o) THEN Res(Append(Without(o, k), <<k, v>>), {o[At(o, k)][2]}, 0, {})
                       ELSE IF Len(o) < max THEN Res(Append(o, <<k, v>>), {}, 0, {})
                       ELSE Res(Append(Tail(o), <<k, v>>), {o[1][2]}, 0, {})
(* requesting a key's pool; candidates: pools made by the requester, or -2 when making one failed *)
PoolOp(o, max, k, cand) == IF k \in Keys(o) THEN {Res(Touch(o, k), {}, o[At(o, k)][2], {})}
                           ELSE {IF v = -2 THEN Res(o, {}, -2, {}) ELSE [Store(o, max, k, v) EXCEPT !.r = v] : v \in cand}
Effect(o, max, q) ==
    CASE q.op = "get" -> IF q.k \in Keys(o) THEN Res(Touch(o, q.k), {}, o[At(o, q.k)][2], {}) ELSE Res(o, {}, 0, {})
      [] q.op = "set" -> Store(o, max, q.k, q.v)
      [] q.op = "del" -> IF q.k \in Keys(o) THEN Res(Without(o, q.k), {o[At(o, q.k)][2]}, 1, {}) ELSE Res(o, {}, 0, {})
      [] q.op = "clear" -> Res(<<>>, {o[i][2] : i \in 1..Len(o)}, 0, {})
      [] q.op = "len" -> Res(o, {}, Len(o), {})
      [] q.op = "keys" -> Res(o, {}, 0, Keys(o))
==============================================================================
