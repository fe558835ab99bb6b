------------------------------- MODULE SyncAbs -------------------------------
(* Abstract specification of the blocking client.                                                                   *)
(*   call(k, kind, a, T, enc)    a call is about to be made: kind sync / one                                        *)
(*   ret(k, ok, ..)              it returned or raised                                                              *)
(*   acc(n, a)                   server a accepted connection n                                                     *)
(*   req(n, k, id, ..)           the request of k was completely received on n                                      *)
(*   resp(n, id, st, body, form) the last byte of a response frame is about to be sent                              *)
(*   lose(n)                     the server is about to close or reset n                                            *)
(*   down(a) / up(a)             a stops / starts accepting;  stall(n): the server stops (starts) reading from n    *)
(*   habit(ks)                   the calls ks were made one after the other, until one of them ended promptly       *)
(*   quiet                       the driver waited long for everything which has to happen                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SLACK == 20
LATE == 4000       \* a call may return this much later than a second after its timeout
GRACE == 1000      \* "about one second after the timeout"
EARLY == 400       \* a timeout is not reported this much earlier than that
MARGIN == 700      \* a response sent this long before then was in time
GAP == 250
HABIT == 300      \* of several such calls in a row at least one ends within this much of its time
OFTEN == 10
If(c, x) == IF c THEN {x} ELSE {}
Empty == <<>>
Start0(cfg) == [call |-> Empty, conn |-> Empty, ids |-> Empty, down |-> {}]
Calls(s) == DOMAIN s.call
Conns(s) == DOMAIN s.conn
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
Own(c, r) == r.id = c.id
Good(c, r) == Own(c, r) /\ r.st = 0 /\ r.form \in {"ok", "any"}
Odd(r) == r.form \in {"odd", "hb"} /\ r.st = 0      \* SUCCESS, but with the command code of something else: free
Due(c) == c.t0 + c.T + GRACE
(* the first frame on the connection the request was received on: the response *)
Reply(s, c) == IF c.n = 0 \/ s.conn[c.n].rs = <<>> THEN <<>> ELSE <<s.conn[c.n].rs[1]>>
Lost(s, c) == c.n # 0 /\ s.conn[c.n].lost
Trouble(s, c) == \/ c.a \in s.down \/ c.sawdown \/ Lost(s, c)
                 \/ \E n \in Conns(s) : s.conn[n].a = c.a /\ s.conn[n].lost /\ s.conn[n].tlost >= c.t0

BadOk(s, c, ev) ==
    LET r == Reply(s, c) IN
    IF ~c.enc THEN {"P15.value"}
    ELSE IF r = <<>> THEN {"P15.partial"}
    ELSE IF Good(c, r[1]) THEN If(ev.body # r[1].body, "P15.content")
    ELSE IF ~Own(c, r[1]) THEN {"P15.foreign"}
    ELSE If(~Odd(r[1]), "P15.value")
BadErr(s, c, ev) ==
    LET r == Reply(s, c)
        before == r # <<>> /\ (~Lost(s, c) \/ r[1].t + GAP < s.conn[c.n].tlost)
    IN IF ~c.enc THEN {}
       ELSE IF before
       THEN IF Good(c, r[1]) THEN If(r[1].t < Due(c) - MARGIN, "P15.failed")
            ELSE If(r[1].t < Due(c) - MARGIN /\ ev.to, "P15.error")
                 \cup If(r[1].t < Due(c) - MARGIN /\ r[1].form = "ok" /\ ~ev.srv, "P15.error")
                 \cup If(r[1].t < Due(c) - MARGIN /\ r[1].form = "ok" /\ Own(c, r[1]) /\ r[1].st # 0 /\ ~InSeq(r[1].st, ev.named), "P15.error")
       ELSE IF r # <<>> THEN {}
       ELSE IF ev.to THEN If(ev.t < Due(c) - EARLY, "P15.early") \cup If(c.n = 0 /\ ~c.stalled /\ ~Trouble(s, c), "P15.unsent")
       ELSE If(~Trouble(s, c), "P15.spurious")
BadRet(s, ev) ==
    LET c == s.call[ev.k] IN
    If(c.over, "P15.twice")
    \cup (IF c.kind = "one"
          THEN If(~ev.ok /\ c.enc /\ ~Trouble(s, c), "P07.raised") \cup If(ev.ok /\ ev.val # "none", "P07.value")
               \cup If(ev.t > c.t0 + 1500 /\ ~c.stalled, "P07.awaited")
          ELSE If(ev.t > Due(c) + LATE, "P15.late") \cup (IF ev.ok THEN BadOk(s, c, ev) ELSE BadErr(s, c, ev)))
BadReq(s, ev) ==
    LET c == s.call[ev.k]
        one == c.kind = "one"
    IN If(~c.enc, "P15.sent") \cup If(s.conn[ev.n].a # c.a, "P15.address")
       \cup If(ev.ty # IF one THEN 2 ELSE 1, IF one THEN "P07.form" ELSE "P15.form")
       \cup If(ev.cmd # 1, "P15.form") \cup If(~ev.intact, IF one THEN "P07.request" ELSE "P15.request")
       \cup If(c.n # 0 /\ ~s.conn[c.n].lost, IF one THEN "P07.resent" ELSE "P15.resent")
       \cup If(ev.id \in DOMAIN s.ids, "P21.shared") \cup If(ev.id < 0, "P21.range")
Owed(s, k, ev) ==
    LET c == s.call[k] IN
    IF c.over THEN {}
    ELSE IF c.kind = "one" THEN If(~\E n \in Conns(s) : s.conn[n].a = c.a /\ s.conn[n].stall, "P07.awaited")
    ELSE IF c.stalled /\ ev.t <= Due(c) + LATE THEN {}
    ELSE IF Reply(s, c) # <<>> \/ Lost(s, c) \/ ev.t > Due(c) + LATE \/ c.a \in s.down THEN {"P15.hang"} ELSE {}
Sent(s, k) == LET c == s.call[k] IN
    If(c.kind = "one" /\ c.enc /\ c.n = 0 /\ ~c.stalled /\ ~Trouble(s, c), "P07.notsent")
    \cup If(c.kind = "sync" /\ c.over /\ c.enc /\ c.n = 0 /\ ~c.stalled /\ ~Trouble(s, c), "P15.unsent")
BadQuiet(s, ev) == UNION {Owed(s, k, ev) \cup Sent(s, k) : k \in Calls(s)}
BadHabit(s, ev) ==
    IF Len(ev.ks) < OFTEN \/ \E i \in 1..Len(ev.ks) : LET k == ev.ks[i] IN s.call[k].tend <= (IF s.call[k].kind = "sync" THEN Due(s.call[k]) ELSE s.call[k].t0) + HABIT THEN {}
    ELSE IF s.call[ev.ks[1]].kind = "one" THEN {"P07.awaited"} ELSE {"P15.tardy"}
Bad(s, ev) ==
    CASE ev.e = "ret" -> BadRet(s, ev)
      [] ev.e = "req" -> BadReq(s, ev)
      [] ev.e = "junk" -> {"P15.request", "P07.request"}
      [] ev.e = "quiet" -> BadQuiet(s, ev)
      [] ev.e = "habit" -> BadHabit(s, ev)
      [] OTHER -> {}
Apply(s, ev) ==
    CASE ev.e = "call" ->
            [s EXCEPT !.call = (ev.k :> [kind |-> ev.kind, a |-> ev.a, T |-> ev.T, t0 |-> ev.t, enc |-> ev.enc, id |-> -1, n |-> 0,
                over |-> FALSE, tend |-> 0, sawdown |-> ev.a \in s.down, stalled |-> \E n \in Conns(s) : s.conn[n].a = ev.a /\ s.conn[n].stall]) @@ @]
      [] ev.e = "ret" -> [s EXCEPT !.call[ev.k].over = TRUE, !.call[ev.k].tend = ev.t]
      [] ev.e = "acc" -> [s EXCEPT !.conn = (ev.n :> [a |-> ev.a, lost |-> FALSE, tlost |-> 0, rs |-> <<>>, stall |-> FALSE]) @@ @]
      [] ev.e = "req" -> [s EXCEPT !.call[ev.k].n = ev.n, !.call[ev.k].id = ev.id, !.ids = (ev.id :> ev.k) @@ @]
      [] ev.e = "resp" -> [s EXCEPT !.conn[ev.n].rs = Append(@, [id |-> ev.id, st |-> ev.st, body |-> ev.body, form |-> ev.form, t |-> ev.t])]
      [] ev.e = "lose" -> [s EXCEPT !.conn[ev.n].lost = TRUE, !.conn[ev.n].tlost = ev.t]
      [] ev.e = "stall" -> [s EXCEPT !.conn[ev.n].stall = ev.on,
                                     !.call = [k \in Calls(s) |-> IF s.call[k].a = s.conn[ev.n].a /\ ~s.call[k].over
                                                                  THEN [s.call[k] EXCEPT !.stalled = TRUE] ELSE s.call[k]]]
      [] ev.e = "down" -> [s EXCEPT !.down = @ \cup {ev.a},
                                    !.call = [k \in Calls(s) |-> IF s.call[k].a = ev.a /\ ~s.call[k].over
                                                                 THEN [s.call[k] EXCEPT !.sawdown = TRUE] ELSE s.call[k]]]
      [] ev.e = "up" -> [s EXCEPT !.down = @ \ {ev.a}]
      [] OTHER -> s
==============================================================================
