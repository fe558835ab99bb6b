------------------------------- MODULE EndAbs -------------------------------
(* What real clients and real listeners, connected, may be observed to do.                                                *)
(*   call(c, key, tag, ctx, oneway, ok, strict, must)  a call: key = what it addresses and passes (interface, method, body), tag =  *)
(*        the service registered for the interface, ctx = trace entries, ok: the service exists, is healthy and quick,      *)
(*        strict: no faults are injected and the listener is one which keeps the client's connection; must: and its caller  *)
(*        does not give up so soon that it may not have been sent                                                           *)
(*   start(x, key, tag, ctx)  execution x begins;   fin(x, res)  it returned res ("!": raised)                               *)
(*   ret(c, ok, val)          call c returned val, or raised                                                              *)
(*   cb(c, val)               its callback was called                                                                     *)
(*   over                     everything has settled                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
If(b, x) == IF b THEN {x} ELSE {}
Set(f, k, v) == (k :> v) @@ f
Start0 == [call |-> <<>>, ex |-> <<>>]
Pairs(q) == {q[i] : i \in 1..Len(q)}
Calls(s, key) == {c \in DOMAIN s.call : s.call[c].key = key}
Idle(s, key) == {c \in Calls(s, key) : s.call[c].runs = 0}
(* the call an execution belongs to: one with its key, which has not run yet, and whose context it was given *)
Mine(s, ev) == LET cs == Idle(s, ev.key) good == {c \in cs : s.call[c].ctx = Pairs(ev.ctx)}
               IN IF good # {} THEN CHOOSE c \in good : TRUE ELSE IF cs # {} THEN CHOOSE c \in cs : TRUE
                  ELSE IF Calls(s, ev.key) # {} THEN CHOOSE c \in Calls(s, ev.key) : TRUE ELSE 0
Results(s, key, val) == {x \in DOMAIN s.ex : s.ex[x].key = key /\ s.ex[x].res = val /\ ~s.ex[x].taken}
BadStart(s, ev) == LET c == Mine(s, ev) IN
    IF c = 0 THEN {"P24.foreign"}
    ELSE If(s.call[c].runs > 0 /\ s.call[c].strict, "P24.twice") \cup If(s.call[c].tag # ev.tag, "P24.misrouted")
         \cup If(s.call[c].ctx # Pairs(ev.ctx), "P20.given")
BadRet(s, ev) == LET q == s.call[ev.c] IN
    IF ~ev.ok THEN If(q.ok /\ q.strict, "P24.failed")
    ELSE IF q.oneway THEN If(ev.val # "none", "P24.value")
    ELSE If(Results(s, q.key, ev.val) = {}, "P24.value")
BadCb(s, ev) == LET q == s.call[ev.c] IN
    If({x \in DOMAIN s.ex : s.ex[x].key = q.key /\ s.ex[x].res = ev.val} = {}, "P24.value") \cup If(q.cbs > 0, "P24.callback")
Bad(s, ev) ==
    CASE ev.e = "start" -> BadStart(s, ev)
      [] ev.e = "ret" -> BadRet(s, ev)
      [] ev.e = "cb" -> BadCb(s, ev)
      [] ev.e = "over" -> If(\E c \in DOMAIN s.call : s.call[c].must /\ s.call[c].tag # "" /\ s.call[c].runs = 0, "P24.notrun")
                          \cup If(\E c \in DOMAIN s.call : ~s.call[c].done, "P24.hang")
      [] OTHER -> {}
Apply(s, ev) ==
    CASE ev.e = "call" -> [s EXCEPT !.call = Set(@, ev.c, [key |-> ev.key, tag |-> ev.tag, ctx |-> Pairs(ev.ctx), oneway |-> ev.oneway, ok |-> ev.ok,
                                                         strict |-> ev.strict, must |-> ev.must, runs |-> 0, done |-> FALSE, cbs |-> 0])]
      [] ev.e = "start" -> LET c == Mine(s, ev) n == [s EXCEPT !.ex = Set(@, ev.x, [key |-> ev.key, res |-> "?", taken |-> FALSE])]
                           IN IF c = 0 THEN n ELSE [n EXCEPT !.call[c].runs = @ + 1]
      [] ev.e = "fin" -> [s EXCEPT !.ex[ev.x].res = ev.res]
      [] ev.e = "ret" -> LET r == Results(s, s.call[ev.c].key, ev.val)
                             n == [s EXCEPT !.call[ev.c].done = TRUE]
                         IN IF ev.ok /\ ~s.call[ev.c].oneway /\ r # {} THEN [n EXCEPT !.ex[CHOOSE x \in r : TRUE].taken = TRUE] ELSE n
      [] ev.e = "cb" -> [s EXCEPT !.call[ev.c].cbs = @ + 1]
      [] OTHER -> s
=============================================================================
