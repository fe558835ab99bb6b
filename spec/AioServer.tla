----------------------------- MODULE AioServer -----------------------------
(* Design of the asyncio listener: one reader coroutine per connection takes frame after frame, rejects or          *)
(* dispatches it; a pool of workers runs services; a dispatch coroutine per request waits for the result or the     *)
(* deadline and writes the reply; end of stream ends the connection.  Every observable step feeds the abstract      *)
(* specification (mon); `bad` collects the clauses it would break.                                                   *)
EXTENDS ServerAbs, Json
CONSTANTS Kind,     \* sequence: the kind of each request
          ConnOf,   \* sequence: its connection
          Workers,  \* size of the worker pool
          Emit,     \* print the state graph
          Defect    \* "none", or the defect planted into the design (vacuity check of the clauses)

N == Len(Kind)
R == 1..N
C == {ConnOf[r] : r \in R}
Gated == {"ok", "err", "obj", "late", "one", "oneerr"}
OneWay == {"one", "oneerr", "oneunk", "onebad"}
RejectNow == {"badhdr", "badcls", "resp", "onebad"}                                  \* refused by the reader
RejectTask == {"unksvc", "unkmeth", "nosvc", "nometh", "badctx", "ctorfail", "oneunk"}  \* refused by the dispatcher
Out(k) == IF k \in {"err", "oneerr"} THEN "raise" ELSE IF k = "obj" THEN "obj" ELSE "bytes"
Failure(k) == CASE k = "badhdr" -> CODEC_EXCEPTION
                [] k \in {"badcls", "resp", "nosvc", "nometh", "onebad"} -> CLIENT_SEND_ERROR
                [] k \in {"unksvc", "unkmeth", "oneunk"} -> NO_PROCESSOR
                [] OTHER -> SERVER_EXCEPTION

Methods == <<"echo", "boom", "obj">>
Cfg == [kind |-> "aio", clock |-> 100, workers |-> Workers,
        lst |-> << << [svc |-> "A", tag |-> "1A", meths |-> Methods, args |-> "", fails |-> FALSE],
                      [svc |-> "F", tag |-> "1F", meths |-> Methods, args |-> "", fails |-> TRUE] >> >>]
Meth(k) == IF k \in {"err", "oneerr"} THEN "boom" ELSE IF k = "obj" THEN "obj" ELSE IF k = "unkmeth" THEN "zip"
           ELSE IF k = "nometh" THEN "" ELSE "echo"
Svc(k) == IF k \in {"unksvc", "oneunk"} THEN "X" ELSE IF k = "nosvc" THEN "" ELSE IF k = "ctorfail" THEN "F" ELSE "A"

VARIABLES pc, chan, eof, closed, gate, cancelled, mon, bad, lab
vars == <<pc, chan, eof, closed, gate, cancelled, mon, bad, lab>>
view == <<pc, chan, eof, closed, gate, cancelled, mon, bad>>
gview == <<pc, chan, eof, closed, gate>>
proj == [pc |-> pc, chan |-> [c \in C |-> chan[c]], eof |-> [c \in C |-> eof[c]],
         closed |-> [c \in C |-> closed[c]], gate |-> gate, cancelled |-> cancelled]

SendEv(r) == [e |-> "send", c |-> ConnOf[r], r |-> r, id |-> 10 + r, ty |-> IF Kind[r] \in OneWay THEN "one" ELSE "two",
              cmd |-> IF Kind[r] = "hb" THEN "hb" ELSE IF Kind[r] = "resp" THEN "resp" ELSE "req",
              cls |-> Kind[r] \notin {"badcls", "onebad"}, hdr |-> Kind[r] # "badhdr", svc |-> Svc(Kind[r]),
              meth |-> Meth(Kind[r]),
              ctxok |-> Kind[r] # "badctx", ctx |-> <<>>, body |-> ToString(r), T |-> IF Kind[r] = "late" THEN 1 ELSE 0]
FullEv(r) == [e |-> "full", c |-> ConnOf[r], r |-> r, t |-> 0]
StartEv(r) == [e |-> "start", inv |-> r, obj |-> r, tag |-> "1A", meth |-> Meth(Kind[r]), body |-> ToString(r), args |-> "",
               ctx |-> <<>>, t |-> 0]
EndEv(r) == [e |-> "end", inv |-> r, out |-> Out(Kind[r]), body |-> "res" \o ToString(r), t |-> 0]
ReplyEv(r, st, body) == [e |-> "reply", c |-> ConnOf[r], id |-> 10 + r, ty |-> 0, cmd |-> 2, cls |-> "resp", st |-> st,
                         body |-> body, t |-> IF st = TIMEOUT THEN 1 ELSE 0]
HbEv(r) == [e |-> "reply", c |-> ConnOf[r], id |-> 10 + r, ty |-> 0, cmd |-> 0, cls |-> "none", st |-> 0, body |-> "", t |-> 0]

Observe(ev) == /\ mon' = Apply(mon, ev)
               /\ bad' = bad \cup Bad(mon, ev)
Silent == UNCHANGED <<mon, bad>>
Lab(a, x) == lab' = <<a, x>>

Init == /\ pc = [r \in R |-> "new"] /\ chan = [c \in C |-> <<>>] /\ eof = [c \in C |-> FALSE]
        /\ closed = [c \in C |-> FALSE] /\ gate = [r \in R |-> FALSE] /\ cancelled = [r \in R |-> FALSE]
        /\ mon = [Start0(Cfg) EXCEPT !.conn = [c \in C |-> [l |-> 1, eof |-> "no", closed |-> FALSE]]]
        /\ bad = {} /\ lab = <<"init", 0>>

(* ------------------------------------------------------------------ environment *)
Send(r) == /\ pc[r] = "new" /\ ~eof[ConnOf[r]]
           /\ \A x \in R : x < r /\ ConnOf[x] = ConnOf[r] => pc[x] # "new"
           /\ pc' = [pc EXCEPT ![r] = IF Kind[r] = "cut" THEN "part" ELSE "sent"]
           /\ chan' = [chan EXCEPT ![ConnOf[r]] = IF Kind[r] = "cut" THEN @ ELSE Append(@, r)]
           /\ IF Kind[r] = "cut" THEN Observe(SendEv(r))
              ELSE /\ mon' = Apply(Apply(mon, SendEv(r)), FullEv(r)) /\ bad' = bad
           /\ Lab("Send", r) /\ UNCHANGED <<eof, closed, gate, cancelled>>
NothingPartial(c) == \A x \in R : ConnOf[x] = c => pc[x] # "part"
Release(r) == /\ Kind[r] \in Gated /\ ~gate[r] /\ pc[r] # "new" /\ gate' = [gate EXCEPT ![r] = TRUE]
              /\ Silent /\ Lab("Release", r) /\ UNCHANGED <<pc, chan, eof, closed, cancelled>>
Eof(c) == /\ ~eof[c] /\ eof' = [eof EXCEPT ![c] = TRUE]
          /\ Observe([e |-> "eof", c |-> c, mode |-> "half"]) /\ Lab("Eof", c)
          /\ UNCHANGED <<pc, chan, closed, gate, cancelled>>

(* ------------------------------------------------------------------ reader coroutine *)
Live(c) == ~closed[c]
Take(c, next) == /\ chan[c] # <<>> /\ Live(c) /\ chan' = [chan EXCEPT ![c] = Tail(@)]
                 /\ pc' = [pc EXCEPT ![Head(chan[c])] = next] /\ UNCHANGED <<eof, closed, gate, cancelled>>
Reject(c) == LET r == Head(chan[c]) IN
             /\ chan[c] # <<>> /\ Kind[r] \in RejectNow /\ Take(c, "done") /\ Lab("Reject", r)
             /\ IF Kind[r] \in OneWay /\ Defect # "answerOneway" THEN Silent
                ELSE IF Defect = "dropReject" THEN Silent
                ELSE Observe(ReplyEv(r, Failure(Kind[r]), ""))
Dispatch(c) == LET r == Head(chan[c]) IN
               /\ chan[c] # <<>> /\ Kind[r] \notin RejectNow
               /\ Take(c, IF Kind[r] = "hb" THEN "hbq" ELSE IF Kind[r] \in RejectTask THEN "refused" ELSE "queued")
               /\ Silent /\ Lab("Dispatch", r)
Close(c) == /\ eof[c] /\ Live(c) /\ chan[c] = <<>> /\ closed' = [closed EXCEPT ![c] = TRUE]
            /\ (IF Defect = "reanswer" /\ \E r \in R : ConnOf[r] = c /\ pc[r] = "done"
                THEN LET r == CHOOSE r \in R : ConnOf[r] = c /\ pc[r] = "done"
                         e1 == ReplyEv(r, CONNECTION_CLOSED, "")
                     IN mon' = Apply(mon, e1) /\ bad' = bad \cup Bad(mon, e1)
                ELSE Observe([e |-> "closed", c |-> c]))
            /\ Lab("Close", c) /\ UNCHANGED <<pc, chan, eof, gate, cancelled>>

(* ------------------------------------------------------------------ tasks and workers *)
Goto(r, next) == pc' = [pc EXCEPT ![r] = next] /\ UNCHANGED <<chan, eof, closed, gate, cancelled>>
Answer(r, ev) == IF Live(ConnOf[r]) THEN Observe(ev) ELSE Silent
HbReply(r) == pc[r] = "hbq" /\ Goto(r, "done") /\ Answer(r, HbEv(r)) /\ Lab("Reply", r)
Refuse(r) == /\ pc[r] = "refused" /\ Goto(r, "done") /\ Lab("Reply", r)
             /\ IF Kind[r] \in OneWay /\ Defect # "answerOneway" THEN Silent
                ELSE Answer(r, ReplyEv(r, IF Defect = "status" THEN UNKNOWN ELSE Failure(Kind[r]), ""))
Busy == Cardinality({x \in R : pc[x] \in {"running", "zombie"}})
Begin(r) == /\ pc[r] = "queued" /\ Busy < Workers /\ Goto(r, "running") /\ Observe(StartEv(r)) /\ Lab("Start", r)
End(r) == /\ pc[r] \in {"running", "zombie"} /\ gate[r]
          /\ Goto(r, IF pc[r] = "zombie" THEN IF Defect = "lateReply" THEN "ended" ELSE "done" ELSE "ended")
          /\ Observe(EndEv(r)) /\ Lab("End", r)
Complete(r) ==
    /\ pc[r] = "ended" /\ Goto(r, "done") /\ Lab("Reply", r)
    /\ IF Kind[r] \in OneWay /\ Defect # "answerOneway" THEN Silent
       ELSE IF Defect = "dropFailure" /\ Out(Kind[r]) # "bytes" THEN Silent
       ELSE IF Defect = "twice" THEN
            LET e1 == ReplyEv(r, 0, "res" \o ToString(r)) IN
            /\ mon' = Apply(Apply(mon, e1), e1) /\ bad' = bad \cup Bad(mon, e1) \cup Bad(Apply(mon, e1), e1)
       ELSE Answer(r, IF Out(Kind[r]) = "bytes"
                      THEN ReplyEv(IF Defect = "swap" THEN 1 ELSE r, 0, "res" \o ToString(r))
                      ELSE IF Out(Kind[r]) = "raise" THEN ReplyEv(r, IF Defect = "hide" THEN 0 ELSE UNKNOWN, "")
                      ELSE ReplyEv(r, SERIAL, ""))
Expire(r) == /\ Kind[r] = "late" /\ pc[r] \in {"queued", "running", "ended"} /\ Defect # "noTimer"
             /\ Goto(r, IF pc[r] = "running" THEN "zombie" ELSE "done")
             /\ Answer(r, ReplyEv(r, TIMEOUT, "")) /\ Lab("Expire", r)

System == \/ \E c \in C : Reject(c) \/ Dispatch(c) \/ Close(c)
          \/ \E r \in R : HbReply(r) \/ Refuse(r) \/ Begin(r) \/ End(r) \/ Complete(r) \/ Expire(r)
Env == \/ \E r \in R : Send(r) \/ Release(r)
       \/ \E c \in C : Eof(c)
Next == System \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(System) /\ \A r \in R : WF_vars(Release(r))

(* ------------------------------------------------------------------ properties *)
Clean == bad = {}
(* whenever the design has nothing left to do, nothing is owed *)
Quiescent == ~ENABLED System
BadQuietNow == BadQuietAio(mon, [e |-> "quiet", t |-> 100000])
Settled == Quiescent => BadQuietNow = {}
(* at most one reply per request, none for one-way *)
Once == \A r \in DOMAIN mon.req : mon.req[r].nrep <= IF mon.req[r].ty = "one" THEN 0 ELSE 1
TypeOK == \A r \in R : pc[r] \in {"new", "part", "sent", "hbq", "refused", "queued", "running", "zombie", "ended", "done"}
(* every two-way request on a connection that stays open is eventually answered *)
Answered == \A r \in R : (pc[r] = "sent" /\ Kind[r] \notin OneWay)
                ~> (eof[ConnOf[r]] \/ (r \in DOMAIN mon.req /\ mon.req[r].nrep = 1))
(* ... and every accepted request is run to its end unless it expired or its connection ended *)
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
=============================================================================
