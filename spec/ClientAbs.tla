------------------------------ MODULE ClientAbs ------------------------------
(* Abstract specification of the asyncio client as seen by its callers and by the servers it talks to.              *)
(*                                                                                                                   *)
(*   call(k, kind, a, T, enc)    a call is about to be made: kind sync / async / cb / one / hb, address a, timeout T *)
(*                               (ms, sync only), enc: its request can be encoded                                    *)
(*   ret(k, ok, ..)              it returned or raised, or its future is done;  cb(k, body): its callback ran        *)
(*   acc(n, a)                   server a accepted connection n;  att(n, k): the first bytes of k's request came in  *)
(*   req(n, k, id, ..)           the request of k was received on n (early: only its fixed header so far)            *)
(*   resp(n, id, st, body, form) a response frame's last byte is about to be sent                                    *)
(*                               form: ok, hb (heartbeat), bad (undecodable or no response), any                     *)
(*   lose(n)                     the server is about to close or reset n;  settle(n): the client has noticed         *)
(*   cancel(k)                   the caller is about to cancel the future of k                                       *)
(*   cclose(n)                   the server saw the client close n                                                   *)
(*   down(a) / up(a)             a stops / starts accepting;  stall(n): the server does not read from n              *)
(*   habit(ks)                   the calls ks were made one after the other, until one of them ended promptly       *)
(*   quiet                       the driver waited long for everything which has to happen                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SLACK == 20      \* clock granularity (ms)
LATE == 5000     \* a call may return this much after its timeout
MARGIN == 1000   \* a response sent this long before the timeout was in time
GAP == 250       \* ... and this long before a loss was received before it

HABIT == 300      \* of several such calls in a row at least one ends within this much of its time
OFTEN == 10
If(c, x) == IF c THEN {x} ELSE {}
Empty == <<>>
Start0(cfg) == [call |-> Empty, conn |-> Empty, ids |-> Empty, down |-> {}, hb |-> Empty]

Calls(s) == DOMAIN s.call
Conns(s) == DOMAIN s.conn
Up(s, n) == s.conn[n].st = "up"
UpOn(s, a) == {n \in Conns(s) : s.conn[n].a = a /\ Up(s, n)}
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
Range(q) == {q[i] : i \in 1..Len(q)}
Twoway(c) == c.kind \in {"sync", "async", "cb"}
(* the first response on each connection which carried the request *)
Firsts(c) == {i \in 1..Len(c.rs) : \A j \in 1..i-1 : c.rs[j].n # c.rs[i].n}
First(c) == {c.rs[i] : i \in Firsts(c)}
Success(r) == r.st = 0 /\ r.form \in {"ok", "any"}
Failing(r) == r.st # 0 \/ r.form # "ok"
(* a response which was certainly received before its connection was lost *)
Received(s, r) == Up(s, r.n) \/ (s.conn[r.n].st = "lost" /\ r.t + GAP < s.conn[r.n].tlost)
(* trouble at the address while the call was in progress: any error is excused *)
Lost(s, c) == {n \in Conns(s) : /\ s.conn[n].a = c.a /\ s.conn[n].st # "up"
                               /\ (~s.conn[n].settled \/ s.conn[n].tsettle >= c.t0)}
Trouble(s, c) == c.a \in s.down \/ c.sawdown \/ Lost(s, c) # {}

(* ------------------------------------------------------------------ results *)
BadOk(s, c, ev) ==
    LET own == {r \in First(c) : Success(r) /\ r.body = ev.body} IN
    IF ~c.enc THEN {"P12.value"}
    ELSE IF own # {} THEN {}
    ELSE IF First(c) = {} THEN {"P11.foreign"}
    ELSE IF \A r \in First(c) : Failing(r) THEN {"P12.value"} \cup If(~\E r \in First(c) : r.body = ev.body, "P11.foreign")
    ELSE {"P11.foreign"}
BadErr(s, c, ev) ==
    LET due == c.t0 + c.T
        fails == {r \in First(c) : Failing(r)}
        intime == {r \in First(c) : Success(r) /\ Received(s, r) /\ (c.kind # "sync" \/ r.t < due - MARGIN)}
        named == {r \in fails : r.form = "ok" /\ r.st # 0}
    IN IF ~c.enc \/ c.cancelled THEN {}
       ELSE IF fails # {}
       THEN IF named = fails /\ (c.kind # "sync" \/ \E r \in fails : r.t < due - MARGIN) /\ ~Trouble(s, c)
            THEN If(~ev.srv \/ ~\E r \in named : InSeq(r.st, ev.named), "P12.error") ELSE {}
       ELSE IF intime # {} THEN {"P11.failed"}
       ELSE IF c.kind = "sync" /\ ev.to /\ ev.t >= due - SLACK THEN {}
       ELSE IF c.kind = "sync" /\ ev.to /\ c.kind = "sync" THEN {"P13.early"}
       ELSE IF Trouble(s, c)
       THEN If(c.natt > 0 /\ c.natt < 3 /\ c.a \notin s.down /\ c.on = {} /\ ~c.sawdown /\ Cardinality(Lost(s, c)) <= c.natt, "P14.gaveup")
       ELSE IF First(c) # {} THEN {}      \* a success sent too late to be required
       ELSE IF c.on = {} THEN {"P14.unsent"} \cup If(c.lossy, "P14.afterloss") \cup If(c.kind = "cb", "P13.uncalled")
       ELSE {"P13.spurious"}
BadRet(s, ev) ==
    LET c == s.call[ev.k] IN
    If(c.over, "P13.twice")
    \cup (IF c.kind = "one" THEN If(~ev.ok /\ c.enc, "P07.raised") \cup If(ev.ok /\ ev.val # "none", "P07.value")
                                  \cup If(ev.t > c.t0 + 1500, "P07.awaited")
          ELSE IF c.kind = "hb"
          THEN IF ~ev.ok THEN {"P08.raised"}
               ELSE IF ev.val = "true"
               THEN If(~\E r \in First(c) : r.st = 0 /\ r.form \in {"ok", "hb", "any"}, "P08.report")
               ELSE If(ev.val # "false", "P08.report")
                    \cup If(\E r \in First(c) : r.st = 0 /\ r.form = "hb" /\ Received(s, r), "P08.report")
                    \cup If(First(c) = {} /\ c.on # {} /\ ~Trouble(s, c), "P08.report")
          ELSE If(c.kind = "sync" /\ ev.t > c.t0 + c.T + LATE, "P13.late")
               \cup (IF ev.ok THEN BadOk(s, c, ev) ELSE BadErr(s, c, ev)))

BadCb(s, ev) ==
    LET c == s.call[ev.k] IN
    If(Len(c.cbs) > 0, "P13.cbtwice") \cup If(c.over /\ ~c.ok, "P13.cbfail")
    \cup If(~\E r \in First(c) : Success(r) /\ r.body = ev.body, "P13.cbvalue")

(* ------------------------------------------------------------------ connections and requests *)
BadAcc(s, ev) == If(UpOn(s, ev.a) # {}, "P14.second")
BadAtt(s, ev) == LET c == s.call[ev.k] IN If(c.natt >= 3, "P14.attempts") \cup If(\E r \in First(c) : Received(s, r), "P14.resent")
BadReq(s, ev) ==
    LET c == s.call[ev.k]
        one == c.kind = "one"
    IN If(~c.enc, "P12.sent")
       \cup If(s.conn[ev.n].a # c.a, "P14.address")
       \cup If(ev.ty # IF one THEN 2 ELSE 1, IF one THEN "P07.form" ELSE "P11.form")
       \cup If(ev.cmd # IF c.kind = "hb" THEN 0 ELSE 1, IF c.kind = "hb" THEN "P08.form" ELSE "P11.form")
       \cup If(~ev.intact, "P11.request")
       \cup If(ev.id \in DOMAIN s.ids /\ s.ids[ev.id] # ev.k, "P21.shared")
       (* no telling which of two calls in progress a response is for *)
       \cup If(ev.id \in DOMAIN s.ids /\ s.ids[ev.id] # ev.k /\ ~s.call[s.ids[ev.id]].over /\ ev.n \in s.call[s.ids[ev.id]].on
               /\ s.call[s.ids[ev.id]].kind # "one" /\ ~one, "P11.shared")
       \cup If(ev.id < 0, "P21.range")
       \cup If(c.id >= 0 /\ c.id # ev.id, "P11.newid")
       \cup If(c.natt >= 3 /\ c.lastatt # ev.n, "P14.attempts")
       \cup If(\E n \in c.on : Up(s, n), IF one THEN "P07.resent" ELSE "P14.resent")
       \cup If(\E r \in First(c) : Received(s, r), "P14.resent")
BadClose(s, ev) == If(Up(s, ev.n), "P14.dropped")

(* ------------------------------------------------------------------ obligations *)
Owed(s, k, ev) ==
    LET c == s.call[k]
        live == {n \in c.on : Up(s, n)}
        stalled == {n \in UpOn(s, c.a) : s.conn[n].stall}
    IN IF c.over THEN {}
       ELSE IF c.kind = "one" THEN {"P07.awaited"}
       ELSE IF ~c.enc THEN {"P13.hang", "P12.hang"}
       ELSE IF c.cancelled THEN {"P13.hang"}
       ELSE IF c.kind = "sync" /\ ev.t > c.t0 + c.T + LATE THEN {"P13.hang"}
       ELSE IF First(c) # {}
       THEN {"P13.hang"} \cup If(\E r \in First(c) : Success(r) /\ Up(s, r.n), "P11.lost") \cup If(\E r \in First(c) : Failing(r), "P12.hang")
            \cup If(c.kind = "hb", "P08.hang")
       ELSE IF live = {} /\ stalled = {}
       THEN {"P13.hang"} \cup If(c.on # {}, "P13.afterloss") \cup If(c.lossy, "P14.afterloss") \cup If(c.kind = "hb", "P08.hang")
       ELSE {}
Sent(s, k) == LET c == s.call[k] IN
    IF c.kind = "one" /\ c.enc /\ c.on = {} /\ c.natt = 0 /\ ~Trouble(s, c) /\ {n \in UpOn(s, c.a) : s.conn[n].stall} = {}
    THEN {"P07.notsent"} ELSE {}
Called(s, k) == LET c == s.call[k] IN
    If(c.kind = "cb" /\ c.over /\ c.ok /\ Len(c.cbs) = 0, "P13.nocallback")
BadQuiet(s, ev) == UNION {Owed(s, k, ev) \cup Sent(s, k) \cup Called(s, k) : k \in Calls(s)}

(* the heartbeat timer, in (possibly accelerated) ms: hbreq(t) a heartbeat was received, hbend(t, res) it was
   answered, failed or lost; hbup(t): nobody
   was listening up to now, attempts may have failed unseen; hbstop(t): the observation ends *)
HBMIN == 29000
HBMAX == 60000
HBSLACK == 6000
BadHb(s, ev) ==
    CASE ev.e = "hbreq" -> If(s.hb.n > 0 /\ ev.t < s.hb.tend + HBMIN /\ s.hb.done, "P08.toosoon")
                           \cup If(ev.t > s.hb.treq + HBMAX + HBSLACK, "P08.toolate")
                           \cup If(s.hb.done /\ ev.t > s.hb.tend + 30000 + HBSLACK, "P08.toolate")
                           \cup If(~ev.form, "P08.form")
      [] ev.e = "hbstop" -> If(ev.t > s.hb.treq + HBMAX + HBSLACK, "P08.stopped")
      [] OTHER -> {}

BadHabit(s, ev) ==
    IF Len(ev.ks) < OFTEN \/ \E i \in 1..Len(ev.ks) : LET k == ev.ks[i] IN s.call[k].tend <= s.call[k].t0 + (IF s.call[k].kind = "sync" THEN s.call[k].T ELSE 0) + HABIT THEN {}
    ELSE IF s.call[ev.ks[1]].kind = "one" THEN {"P07.awaited"} ELSE {"P13.tardy"}
Bad(s, ev) ==
    CASE ev.e = "ret" -> BadRet(s, ev)
      [] ev.e = "cb" -> BadCb(s, ev)
      [] ev.e = "acc" -> BadAcc(s, ev)
      [] ev.e = "att" -> BadAtt(s, ev)
      [] ev.e = "req" -> BadReq(s, ev)
      [] ev.e = "junk" -> {"P11.request"}     \* bytes which are no request, or a request nobody made
      [] ev.e = "cclose" -> BadClose(s, ev)
      [] ev.e = "quiet" -> BadQuiet(s, ev)
      [] ev.e = "habit" -> BadHabit(s, ev)
      [] ev.e \in {"hbreq", "hbstop"} -> BadHb(s, ev)
      [] OTHER -> {}

(* ------------------------------------------------------------------ next state *)
Apply(s, ev) ==
    CASE ev.e = "call" ->
            [s EXCEPT !.call = (ev.k :> [kind |-> ev.kind, a |-> ev.a, T |-> ev.T, t0 |-> ev.t, enc |-> ev.enc, id |-> -1,
                on |-> {}, natt |-> 0, lastatt |-> 0, rs |-> <<>>, over |-> FALSE, tend |-> 0, cancelled |-> FALSE, ok |-> FALSE, cbs |-> <<>>,
                sawdown |-> ev.a \in s.down,
                lossy |-> \E n \in Conns(s) : s.conn[n].a = ev.a /\ s.conn[n].st # "up"]) @@ @]
      [] ev.e = "ret" -> [s EXCEPT !.call[ev.k].over = TRUE, !.call[ev.k].ok = ev.ok, !.call[ev.k].tend = ev.t]
      [] ev.e = "cancel" -> [s EXCEPT !.call[ev.k].cancelled = TRUE]
      [] ev.e = "cb" -> [s EXCEPT !.call[ev.k].cbs = Append(@, ev.body)]
      [] ev.e = "acc" ->
            [s EXCEPT !.conn = (ev.n :> [a |-> ev.a, st |-> "up", stall |-> FALSE, settled |-> FALSE, tlost |-> 0, tsettle |-> 0])
                @@ [n \in Conns(s) |-> IF s.conn[n].a = ev.a /\ s.conn[n].st # "up" /\ ~s.conn[n].settled
                                       THEN [s.conn[n] EXCEPT !.settled = TRUE, !.tsettle = ev.t] ELSE s.conn[n]]]
      [] ev.e = "att" -> [s EXCEPT !.call[ev.k].natt = @ + 1, !.call[ev.k].lastatt = ev.n]
      [] ev.e = "req" -> [s EXCEPT !.call[ev.k].on = @ \cup {ev.n}, !.call[ev.k].id = ev.id, !.ids = (ev.id :> ev.k) @@ @]
      [] ev.e = "resp" ->
            IF ev.id \notin DOMAIN s.ids \/ ev.n \notin s.call[s.ids[ev.id]].on THEN s
            ELSE [s EXCEPT !.call[s.ids[ev.id]].rs = Append(@, [n |-> ev.n, st |-> ev.st, body |-> ev.body, form |-> ev.form, t |-> ev.t])]
      [] ev.e = "lose" -> [s EXCEPT !.conn[ev.n].st = "lost", !.conn[ev.n].tlost = ev.t]
      [] ev.e = "settle" -> [s EXCEPT !.conn[ev.n].settled = TRUE, !.conn[ev.n].tsettle = ev.t]
      [] ev.e = "cclose" -> [s EXCEPT !.conn[ev.n].st = IF @ = "up" THEN "closed" ELSE @, !.conn[ev.n].settled = TRUE, !.conn[ev.n].tsettle = ev.t,
                                      !.conn[ev.n].tlost = IF Up(s, ev.n) THEN ev.t ELSE @]
      [] ev.e = "stall" -> [s EXCEPT !.conn[ev.n].stall = ev.on]
      [] ev.e = "down" -> [s EXCEPT !.down = @ \cup {ev.a},
                                    !.call = [k \in Calls(s) |-> IF s.call[k].a = ev.a /\ ~s.call[k].over
                                                                 THEN [s.call[k] EXCEPT !.sawdown = TRUE] ELSE s.call[k]]]
      [] ev.e = "up" -> [s EXCEPT !.down = @ \ {ev.a}]
      [] ev.e = "hbstart" -> [s EXCEPT !.hb = [n |-> 0, treq |-> ev.t, tend |-> ev.t, done |-> FALSE]]
      [] ev.e = "hbreq" -> [s EXCEPT !.hb = [n |-> @.n + 1, treq |-> ev.t, tend |-> ev.t, done |-> FALSE]]
      [] ev.e = "hbup" -> [s EXCEPT !.hb = [n |-> 0, treq |-> ev.t, tend |-> ev.t, done |-> TRUE]]
      [] ev.e = "hbend" -> [s EXCEPT !.hb.tend = ev.t, !.hb.done = TRUE]
      [] OTHER -> s
==============================================================================
