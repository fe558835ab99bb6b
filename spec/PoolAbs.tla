------------------------------- MODULE PoolAbs -------------------------------
(* Abstract specification of a connection pool as it can be observed.                                               *)
(*   cfg: max, maxfree, minfree, block, loose (the idle ones are not watched: refusals are not judged)                                                                               *)
(*   inv(p, op, c)       borrower p begins an operation: get / put (of connection c) / close                         *)
(*   ret(p, op, c, err)  it ended; err: "" / "empty" / "closed" / "create" / anything else                           *)
(*   new(c) / newfail    a connection is made / making one failed                                                    *)
(*   shut(c)             connection c is closed by the pool                                                          *)
(*   die(c)              the peer of c closed its end, or sent something nobody asked for                            *)
(*   state(num, idle)    the reported number of connections, and how many idle ones the pool holds                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(c, x) == IF c THEN {x} ELSE {}
Empty == <<>>
Start0(cfg) == [cfg |-> cfg, made |-> {}, shut |-> {}, lent |-> {}, dead |-> {}, pend |-> Empty, num |-> 0, idle |-> 0,
                leaked |-> 0, refused |-> 0, phase |-> "open", exempt |-> {}, racy |-> 0]
Pend(s) == DOMAIN s.pend
Max(a, b) == IF a > b THEN a ELSE b
(* connections which operations in progress may hold, other than the operation of p *)
InHand(s, p) == Cardinality({q \in Pend(s) \ {p} : s.pend[q].op = "put"}) + 2 * Cardinality({q \in Pend(s) \ {p} : s.pend[q].op = "get"})
Used(s) == s.idle + Cardinality(s.lent) + s.leaked + (IF s.cfg.minfree > 0 THEN s.refused ELSE 0)
(* why a get invoked now may be refused: everything is used, or the last idle ones are kept back (the limit min_free) *)
Full(s, p) == \/ Used(s) + InHand(s, p) >= s.cfg.max /\ (s.idle - InHand(s, p) <= s.cfg.minfree)
              \/ s.cfg.block /\ s.idle - InHand(s, p) <= 0
(* .. once another operation interferes *)
FullNow(s, p) == \/ Used(s) + InHand(s, p) + 1 >= s.cfg.max \/ (s.cfg.block /\ s.idle - InHand(s, p) <= 1)
Gone(s) == s.made \ (s.shut \cup s.lent)     \* what should be idle
BadGet(s, ev) ==
    LET p == s.pend[ev.p] IN
    IF ev.err = ""
    THEN If(ev.c \in s.lent, "P16.double") \cup If(ev.c \in s.shut, "P17.closed")
         \cup If(ev.c \in p.dead, "P17.dead")
         \cup If(p.phase = "closed", "P17.lent") \cup If(ev.c \notin s.made, "P16.unknown")
         \cup If(s.idle + Cardinality(s.lent \cup {ev.c}) > s.cfg.max, "P16.max")
    ELSE IF ev.err = "closed" THEN If(s.phase = "open", "P17.refused")
    ELSE IF p.phase = "closed" THEN {"P17.refusal"}
    ELSE IF ev.err = "empty" THEN If(~p.full /\ ~s.cfg.loose, "P16.refused")
    ELSE IF ev.err = "create" THEN If(~p.failed, "P16.error")
    ELSE {"P16.error"}
BadRet(s, ev) ==
    IF ev.op = "get" THEN BadGet(s, ev)
    ELSE If(ev.err # "", IF ev.op = "put" THEN "P16.puterror" ELSE "P17.closeerror")
         \cup If(ev.op = "put" /\ s.pend[ev.p].phase = "closed" /\ s.pend[ev.p].c \notin s.shut, "P17.returned")
(* what has to hold when nothing is in progress *)
Missing(s, ev) == ev.num - (ev.idle + Cardinality(s.lent) + s.leaked)
(* the known deviation: a get refused for the sake of the reserve loses the idle connection it had taken *)
Leak(s, ev) == LET d == Missing(s, ev) IN
    d > 0 /\ d <= s.refused /\ s.cfg.minfree > 0 /\ Cardinality(Gone(s)) - s.leaked = ev.idle + d
BadQuiet(s, ev) ==
    IF s.phase = "open"
    THEN IF Leak(s, ev) THEN {"P16.leak"}
         ELSE If(Missing(s, ev) # 0, "P16.count") \cup If(Cardinality(Gone(s)) - s.leaked # ev.idle, "P16.surplus")
    ELSE If(Cardinality(Gone(s) \ s.exempt) - s.leaked > 2 * s.racy + (IF s.cfg.minfree > 0 THEN s.refused ELSE 0), "P17.leftopen")
BadState(s, ev) ==
    If(ev.idle > s.cfg.maxfree, "P16.idle") \cup If(s.phase = "open" /\ ev.idle + Cardinality(s.lent) > s.cfg.max, "P16.max")
    \cup (IF s.phase # "closing" /\ Pend(s) = {} THEN BadQuiet(s, ev) ELSE {})
BadEv(s, ev) ==
    CASE ev.e = "ret" -> BadRet(s, ev)
      [] ev.e = "state" -> BadState(s, ev)
      [] ev.e = "shut" -> If(ev.c \in s.lent, "P17.shutlent")
      [] ev.e = "hang" -> {"P16.hang"}
      [] OTHER -> {}
Note(s, p) == [q \in Pend(s) |-> IF q # p /\ s.pend[q].op = "get" /\ FullNow(s, q) THEN [s.pend[q] EXCEPT !.full = TRUE] ELSE s.pend[q]]
Apply(s, ev) ==
    CASE ev.e = "new" -> [s EXCEPT !.made = @ \cup {ev.c}]
      [] ev.e = "newfail" -> [s EXCEPT !.pend = [q \in Pend(s) |-> [s.pend[q] EXCEPT !.failed = TRUE]]]
      [] ev.e = "shut" -> [s EXCEPT !.shut = @ \cup {ev.c}]
      [] ev.e = "die" -> [s EXCEPT !.dead = @ \cup {ev.c}]
      [] ev.e = "inv" ->
            LET s0 == [s EXCEPT !.pend = (ev.p :> [op |-> ev.op, c |-> ev.c, dead |-> s.dead, phase |-> s.phase, failed |-> FALSE,
                                                  full |-> ev.op = "get" /\ Full(s, ev.p)]) @@ @]
                s1 == [s0 EXCEPT !.pend = Note(s0, ev.p)]
                s2 == IF ev.op = "put" THEN [s1 EXCEPT !.lent = @ \ {ev.c}] ELSE s1
            IN IF ev.op # "close" \/ s.phase = "closed"
               THEN IF s.phase = "closing"
                    THEN [s2 EXCEPT !.racy = @ + (IF ev.op = "get" THEN 1 ELSE 0), !.exempt = @ \cup (IF ev.op = "put" THEN {ev.c} ELSE {})]
                    ELSE s2
               ELSE [s2 EXCEPT !.phase = "closing",
                               !.racy = @ + Cardinality({q \in Pend(s) : s.pend[q].op = "get"}),
                               !.exempt = @ \cup {s.pend[q].c : q \in {q \in Pend(s) : s.pend[q].op = "put"}}]
      [] ev.e = "ret" ->
            LET s1 == [s EXCEPT !.pend = [q \in Pend(s) \ {ev.p} |-> Note(s, ev.p)[q]]]
            IN IF ev.op = "get" /\ ev.err = "" THEN [s1 EXCEPT !.lent = @ \cup {ev.c}]
               ELSE IF ev.op = "get" /\ ev.err = "empty" THEN [s1 EXCEPT !.refused = @ + 1]
               ELSE IF ev.op = "close" THEN [s1 EXCEPT !.phase = "closed"] ELSE s1
      [] ev.e = "state" ->
            LET s1 == [s EXCEPT !.num = ev.num, !.idle = ev.idle] IN
            IF Pend(s) # {} THEN s1
            ELSE IF s.phase = "open" /\ Leak(s, ev) THEN [s1 EXCEPT !.leaked = @ + Missing(s, ev), !.refused = 0]
            ELSE IF s.phase = "open" THEN [s1 EXCEPT !.refused = 0] ELSE s1
      [] OTHER -> s
Bad(s, ev) == BadEv(s, ev)
==============================================================================
