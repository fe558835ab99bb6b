----------------------------- MODULE ServerAbs -----------------------------
(* Abstract specification of both listeners: what may be observed on the wire and in the services.                  *)
(*                                                                                                                   *)
(* One transition per observable event; Bad(s, ev) names the clauses an event breaks, Apply(s, ev) is the next       *)
(* state.  The design models (AioServer, SockServer) are checked against it, and so is every recorded execution.     *)
(*                                                                                                                   *)
(* cfg.kind   "aio" or "sock";  cfg.workers  size of the worker pool                                                 *)
(* cfg.lst    per listener the registrations [svc, tag, meths, args, fails]                                          *)
(* Events (t is the time in ms):                                                                                     *)
(*   conn(c, l)      a client connection c to listener l                                                             *)
(*   send(c, r, ..)  the first byte of request r is about to be sent; full(c, r): its last byte is about to be sent  *)
(*   eof(c, mode)    the peer is about to shut down its side ("half"), close or reset ("rst") the connection         *)
(*   start(inv, ..)  a service method begins; end(inv, out, body) it is about to return or raise                     *)
(*   reply(c, ..)    a response frame was received; torn(c): bytes which are no response frame                       *)
(*   closed(c)       the server's end of stream was received                                                         *)
(*   quiet(t)        nothing happened for long (the driver waited for whatever was outstanding)                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SUCCESS == 0  SERVER_EXCEPTION == 2  UNKNOWN == 3  NO_PROCESSOR == 6  TIMEOUT == 7  CLIENT_SEND_ERROR == 8
CODEC_EXCEPTION == 9  CONNECTION_CLOSED == 16  SERIAL == 17

SLACK(s) == 2 + ((20 * s.cfg.clock) \div 100)        \* clock granularity of the event loop (ms)
MARGIN(s) == (1500 * s.cfg.clock) \div 100     \* a service that ended this long before its deadline was in time
GRACE(s) == (4000 * s.cfg.clock) \div 100      \* an expiry is overdue after this

If(c, x) == IF c THEN {x} ELSE {}
Empty == <<>>

Start0(cfg) == [cfg |-> cfg, conn |-> Empty, req |-> Empty, inv |-> Empty, objs |-> {}]

Regs(s, l) == s.cfg.lst[l]
RegIx(s, l, svc) == {i \in 1..Len(Regs(s, l)) : Regs(s, l)[i].svc = svc}
HasSvc(s, q) == RegIx(s, s.conn[q.c].l, q.svc) # {}
Reg(s, q) == Regs(s, s.conn[q.c].l)[CHOOSE i \in RegIx(s, s.conn[q.c].l, q.svc) : TRUE]
InSeq(x, sq) == \E i \in 1..Len(sq) : sq[i] = x
HasMeth(s, q) == InSeq(q.meth, Reg(s, q).meths)

(* what is wrong with a request: the statuses that state it *)
Causes(s, q) ==
    If(~q.hdr, CODEC_EXCEPTION)
    \cup If(q.cmd = "resp" \/ ~q.cls, CLIENT_SEND_ERROR)
    \cup (IF ~q.hdr THEN {}
          ELSE If(q.svc = "" \/ q.meth = "", CLIENT_SEND_ERROR)
               \cup (IF q.svc = "" \/ q.meth = "" THEN {}
                     ELSE If(~q.ctxok, SERVER_EXCEPTION)
                          \cup (IF ~HasSvc(s, q) THEN {NO_PROCESSOR}
                                ELSE If(Reg(s, q).fails, SERVER_EXCEPTION) \cup If(~HasMeth(s, q), NO_PROCESSOR))))
Accepted(s, q) == q.cmd = "req" /\ Causes(s, q) = {}

Least(rs) == CHOOSE r \in rs : \A x \in rs : r <= x
Reqs(s) == DOMAIN s.req
Conns(s) == DOMAIN s.conn
OnConn(s, c) == {r \in Reqs(s) : s.req[r].c = c}
(* the blocking listener serves only the first request of a connection *)
Served(s, r) == s.cfg.kind = "aio" \/ \A x \in OnConn(s, s.req[r].c) : s.req[x].ord >= s.req[r].ord
Running(s) == {i \in DOMAIN s.inv : s.inv[i].out = "running"}

(* ------------------------------------------------------------------ replies *)
StatusBad(s, q, ev) ==
    LET causes == Causes(s, q)
        due == q.tfull + q.T
    IN IF causes # {} THEN If(ev.st \notin causes, "P04.status") \cup If(ev.st = SUCCESS, "P04.success")
       ELSE IF ev.st = TIMEOUT
       THEN IF q.T <= 0 THEN {"P09.untimed", "P04.status"}
            ELSE If(ev.t < due - SLACK(s), "P09.early") \cup If(ev.t > due + GRACE(s), "P09.overdue")
                 \cup (IF q.out # "running" /\ q.out # "none" /\ q.tend < due - MARGIN(s)
                       THEN {"P09.intime", "P04.status"} ELSE {})
       ELSE (IF q.out \in {"none", "running"} THEN {"P04.incomplete"} \cup If(ev.st = SUCCESS, "P04.success")
             ELSE IF q.out = "bytes"
             THEN IF ev.st = SUCCESS THEN If(ev.body # q.res, "P04.content") ELSE {"P04.status"}
             ELSE IF q.out = "raise" THEN If(ev.st # UNKNOWN, "P04.status") \cup If(ev.st = SUCCESS, "P04.success")
             ELSE If(ev.st # SERIAL, "P04.status") \cup If(ev.st = SUCCESS, "P04.success"))
            \cup If(q.T > 0 /\ q.tend > due + GRACE(s), "P09.missed")

(* what is wrong with reply ev as the answer to request r *)
AnswerBad(s, r, ev) ==
    LET q == s.req[r]
    IN IF ~q.full THEN IF s.conn[ev.c].eof # "no" /\ ev.st = CONNECTION_CLOSED THEN {}
                       ELSE {"P03.unsolicited", "P06.incomplete"}
       ELSE IF q.ty = "one" THEN {"P03.unsolicited", "P07.answered"}
       ELSE IF q.nrep > 0 THEN {"P03.duplicate"} \cup If(q.st = TIMEOUT, "P09.late")
                               \cup If(ev.st = CONNECTION_CLOSED, "P06.reanswer")
       ELSE IF q.cmd = "hb" THEN If(~(ev.st = SUCCESS /\ ev.cmd = 0 /\ ev.ty = 0), "P08.form")
       ELSE If(~(ev.ty = 0 /\ ev.cmd = 2 /\ ev.cls = "resp"), "P03.form") \cup StatusBad(s, q, ev)
(* Requests of one connection may share an id: a reply is taken for an answer it can be, if there is one *)
SameId(s, ev) == {r \in OnConn(s, ev.c) : s.req[r].id = ev.id}
AnswerOf(s, ev) ==
    LET rs == SameId(s, ev)
        can == {r \in rs : AnswerBad(s, r, ev) = {}}
        open == {r \in rs : s.req[r].ty = "two" /\ s.req[r].nrep = 0}
    IN IF can # {} THEN Least(can) ELSE IF open # {} THEN Least(open) ELSE Least(rs)
BadReplyAio(s, ev) == IF SameId(s, ev) = {} THEN {"P03.unsolicited"} ELSE AnswerBad(s, AnswerOf(s, ev), ev)

BadReplySock(s, ev) ==
    LET rs == {r \in OnConn(s, ev.c) : s.req[r].id = ev.id /\ Served(s, r)} IN
    IF rs = {} THEN {"P10.unsolicited"}
    ELSE LET r == CHOOSE r \in rs : TRUE
             q == s.req[r]
         IN IF ~q.full THEN {"P10.incomplete"}
            ELSE IF q.ty = "one" THEN {"P10.unsolicited", "P07.answered"}
            ELSE IF q.nrep > 0 THEN {"P10.duplicate"}
            ELSE IF q.cmd = "hb" THEN If(~(ev.st = SUCCESS /\ ev.cmd = 0 /\ ev.ty = 0), "P08.form")
            ELSE If(~(ev.ty = 0 /\ ev.cmd = 2 /\ ev.cls = "resp"), "P10.form")
                 \cup (IF Accepted(s, q) /\ q.out = "bytes"
                       THEN If(~(ev.st = SUCCESS /\ ev.body = q.res), "P10.content")
                       ELSE If(ev.st = SUCCESS, "P10.success"))

BadReply(s, ev) == IF s.cfg.kind = "aio" THEN BadReplyAio(s, ev) ELSE BadReplySock(s, ev)

(* --------------------------------------------------------------- invocations *)
Addressed(s, q, ev) == q.hdr /\ HasSvc(s, q) /\ Reg(s, q).tag = ev.tag /\ q.meth = ev.meth /\ q.body = ev.body
Candidates(s, ev) == {r \in Reqs(s) : Addressed(s, s.req[r], ev) /\ Served(s, r)}
Startable(s, ev) == {r \in Candidates(s, ev) : s.req[r].full /\ Accepted(s, s.req[r]) /\ s.req[r].starts = 0}
PairSet(sq) == {sq[i] : i \in 1..Len(sq)}
CtxOk(want, got) ==
    /\ PairSet(want) \subseteq PairSet(got)
    /\ \A p \in PairSet(got) \ PairSet(want) :
          p[1] \in {"sofaTraceId", "sofaRpcId"} /\ \A w \in PairSet(want) : w[1] # p[1]

BadStart(s, ev) ==
    LET can == Startable(s, ev) IN
    IF can = {} THEN
        LET all == Candidates(s, ev)
            part == {r \in all : ~s.req[r].full}
            rej == {r \in all : s.req[r].full /\ ~Accepted(s, s.req[r])}
            again == {r \in all : s.req[r].starts > 0}
        IN IF part # {} THEN {"P05.truncated", "P06.truncated"} \cup If(s.cfg.kind = "sock", "P10.truncated")
           ELSE IF again # {} THEN {"P05.twice"} \cup If(\E r \in again : s.req[r].ty = "one", "P07.twice")
           ELSE IF rej # {} THEN {"P05.rejected"} \cup If(\E r \in rej : s.req[r].cmd = "hb", "P08.invoked")
           ELSE {"P05.misrouted"}
    ELSE LET q == s.req[Least(can)] IN
         If(ev.args # Reg(s, q).args, "P05.args") \cup If(~CtxOk(q.ctx, ev.ctx), "P05.context")
         \cup If(ev.obj \in s.objs, "P05.shared")

(* ---------------------------------------------------------------- obligations *)
Answerable(s, r) == LET q == s.req[r] IN
    /\ q.full /\ q.ty = "two" /\ q.nrep = 0
    /\ s.conn[q.c].eof = "no" /\ ~s.conn[q.c].closed
(* the blocking listener still answers a peer that only shut down its sending side *)
AnswerableSock(s, r) == LET q == s.req[r] IN
    /\ q.full /\ q.ty = "two" /\ q.nrep = 0 /\ Served(s, r) /\ s.conn[q.c].eof \in {"no", "half"}

Done(q) == q.out \notin {"none", "running"}
MustRun(s, r) == LET q == s.req[r] IN
    /\ q.full /\ Accepted(s, q) /\ Served(s, r) /\ q.starts = 0 /\ s.conn[q.c].eof # "rst"
    /\ q.T <= 0 \/ s.cfg.kind = "sock" \/ (q.nrep = 0 /\ s.conn[q.c].eof = "no")   \* else it may have expired in the queue
    /\ s.cfg.kind = "sock" \/ Cardinality(Running(s)) < s.cfg.workers

BadQuietAio(s, ev) ==
    LET open == {r \in Reqs(s) : Answerable(s, r)}
        rejected == {r \in open : s.req[r].cmd # "hb" /\ Causes(s, s.req[r]) # {}}
        finished == {r \in open : Accepted(s, s.req[r]) /\ Done(s.req[r])}
        overdue == {r \in open : Accepted(s, s.req[r]) /\ ~Done(s.req[r]) /\ s.req[r].T > 0
                                 /\ ev.t > s.req[r].tfull + s.req[r].T + GRACE(s)}
        idle == {r \in Reqs(s) : MustRun(s, r)}
    IN If(rejected # {} \/ finished # {} \/ \E r \in idle : Answerable(s, r), "P03.missing") \cup If(overdue # {}, "P09.missing") \cup If(overdue # {}, "P03.missing")
       \cup If(\E r \in open : s.req[r].cmd = "hb", "P08.missing")
       \cup If(\E r \in open : s.req[r].cmd = "hb", "P03.missing")
       \cup If(idle # {}, "P05.notrun") \cup If(\E r \in idle : s.req[r].ty = "one", "P07.notrun")
       \cup If(\E c \in Conns(s) : s.conn[c].eof = "half" /\ ~s.conn[c].closed, "P06.unclosed")

(* everything of the connection's request is over: the listener has to let go *)
SockFinished(s, c) ==
    LET rs == {r \in OnConn(s, c) : Served(s, r)} IN
    IF rs = {} THEN s.conn[c].eof # "no"
    ELSE LET q == s.req[CHOOSE r \in rs : TRUE] IN
         IF ~q.full THEN s.conn[c].eof # "no"
         ELSE IF Accepted(s, q) THEN Done(q) ELSE TRUE
BadQuietSock(s, ev) ==
    LET open == {r \in Reqs(s) : AnswerableSock(s, r)}
        good == {r \in open : Accepted(s, s.req[r]) /\ s.req[r].out = "bytes"}
        idle == {r \in Reqs(s) : MustRun(s, r)}
    IN If(good # {}, "P10.missing")
       \cup If(\E r \in open : s.req[r].cmd = "hb", "P08.missing")
       \cup If(idle # {}, "P05.notrun") \cup If(idle # {}, "P10.notrun")
       \cup If(\E r \in idle : s.req[r].ty = "one", "P07.notrun")
       \cup If(\E c \in Conns(s) : s.conn[c].eof # "rst" /\ ~s.conn[c].closed /\ SockFinished(s, c), "P10.unclosed")
       \cup If(ev.held > Cardinality({c \in Conns(s) : ~SockFinished(s, c)}), "P10.held")

Bad(s, ev) ==
    CASE ev.e = "reply" -> BadReply(s, ev)
      [] ev.e = "torn" -> IF s.cfg.kind = "aio" THEN {"P03.torn"} ELSE {"P10.torn"}
      [] ev.e = "start" -> BadStart(s, ev)
      [] ev.e = "closed" -> IF s.cfg.kind = "aio" THEN If(s.conn[ev.c].eof = "no", "P03.dropped")
                                                       \cup If(s.conn[ev.c].eof = "no", "P06.dropped")
                            ELSE {}
      [] ev.e = "quiet" -> IF s.cfg.kind = "aio" THEN BadQuietAio(s, ev) ELSE BadQuietSock(s, ev)
      [] OTHER -> {}

(* ---------------------------------------------------------------- next state *)
Apply(s, ev) ==
    CASE ev.e = "conn" -> [s EXCEPT !.conn = @ @@ (ev.c :> [l |-> ev.l, eof |-> "no", closed |-> FALSE])]
      [] ev.e = "send" ->
            [s EXCEPT !.req = @ @@ (ev.r :> [c |-> ev.c, id |-> ev.id, ty |-> ev.ty, cmd |-> ev.cmd, cls |-> ev.cls,
                hdr |-> ev.hdr, svc |-> ev.svc, meth |-> ev.meth, ctxok |-> ev.ctxok, ctx |-> ev.ctx, body |-> ev.body,
                T |-> ev.T, ord |-> Cardinality(OnConn(s, ev.c)), full |-> FALSE, tfull |-> 0, starts |-> 0,
                out |-> "none", res |-> "", tend |-> 0, nrep |-> 0, st |-> -1])]
      [] ev.e = "full" -> [s EXCEPT !.req[ev.r].full = TRUE, !.req[ev.r].tfull = ev.t]
      [] ev.e = "eof" -> [s EXCEPT !.conn[ev.c].eof = ev.mode]
      [] ev.e = "closed" -> [s EXCEPT !.conn[ev.c].closed = TRUE]
      [] ev.e = "start" ->
            LET can == Startable(s, ev)
                all == Candidates(s, ev)
                r == IF can # {} THEN Least(can) ELSE IF all # {} THEN Least(all) ELSE 0
                s1 == [s EXCEPT !.inv = (ev.inv :> [r |-> r, out |-> "running"]) @@ @, !.objs = @ \cup {ev.obj}]
            IN IF r = 0 THEN s1
               ELSE [s1 EXCEPT !.req[r].starts = @ + 1,
                               !.req[r].out = IF s.req[r].starts = 0 THEN "running" ELSE @]
      [] ev.e = "end" ->
            IF ev.inv \notin DOMAIN s.inv THEN s
            ELSE LET r == s.inv[ev.inv].r
                     s1 == [s EXCEPT !.inv[ev.inv].out = ev.out]
                 IN IF r = 0 THEN s1 ELSE [s1 EXCEPT !.req[r].out = ev.out, !.req[r].res = ev.body, !.req[r].tend = ev.t]
      [] ev.e = "reply" ->
            LET rs == SameId(s, ev) IN
            IF rs = {} THEN s
            ELSE LET r == IF s.cfg.kind = "aio" THEN AnswerOf(s, ev) ELSE CHOOSE r \in rs : TRUE
                 IN [s EXCEPT !.req[r].nrep = @ + 1, !.req[r].st = ev.st]
      [] OTHER -> s
=============================================================================
