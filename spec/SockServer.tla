----------------------------- MODULE SockServer -----------------------------
(* Design of the blocking listener: one thread per connection reads one request to its last byte, refuses it or      *)
(* runs its service, writes at most one answer and closes the connection.  End of stream before the last byte ends   *)
(* the thread.  Checked against ServerAbs like the asyncio design.                                                    *)
EXTENDS ServerAbs, Json
CONSTANTS Kind, ConnOf, Workers, Emit, Defect

N == Len(Kind)
R == 1..N
C == {ConnOf[r] : r \in R}
Gated == {"ok", "err", "obj", "one", "oneerr"}
OneWay == {"one", "oneerr", "oneunk", "onebad"}
Runs == Gated
Out(k) == IF k \in {"err", "oneerr"} THEN "raise" ELSE IF k = "obj" THEN "obj" ELSE "bytes"
Methods == <<"echo", "boom", "obj">>
Cfg == [kind |-> "sock", clock |-> 100, workers |-> 1000,
        lst |-> << << [svc |-> "A", tag |-> "1A", meths |-> Methods, args |-> "", fails |-> FALSE],
                      [svc |-> "F", tag |-> "1F", meths |-> Methods, args |-> "", fails |-> TRUE] >> >>]
Meth(k) == IF k \in {"err", "oneerr"} THEN "boom" ELSE IF k = "obj" THEN "obj" ELSE IF k = "unkmeth" THEN "zip"
           ELSE IF k = "nometh" THEN "" ELSE "echo"
Svc(k) == IF k \in {"unksvc", "oneunk"} THEN "X" ELSE IF k = "nosvc" THEN "" ELSE IF k = "ctorfail" THEN "F" ELSE "A"

VARIABLES pc,     \* of each request: new, part, sent, done (of those served: running, ended)
          chan, eof, gate, hand, mon, bad, lab
(* hand[c]: what the connection's thread is doing: "read", <<"run", r>>, "close", "gone" *)
vars == <<pc, chan, eof, gate, hand, mon, bad, lab>>
view == <<pc, chan, eof, gate, hand, mon, bad>>
gview == <<pc, chan, eof, gate, hand>>
proj == [pc |-> pc, chan |-> [c \in C |-> chan[c]], eof |-> [c \in C |-> eof[c]], gate |-> gate, hand |-> [c \in C |-> hand[c]]]

SendEv(r) == [e |-> "send", c |-> ConnOf[r], r |-> r, id |-> 10 + r, ty |-> IF Kind[r] \in OneWay THEN "one" ELSE "two",
              cmd |-> IF Kind[r] = "hb" THEN "hb" ELSE IF Kind[r] = "resp" THEN "resp" ELSE "req",
              cls |-> Kind[r] \notin {"badcls", "onebad"}, hdr |-> Kind[r] # "badhdr", svc |-> Svc(Kind[r]),
              meth |-> Meth(Kind[r]),
              ctxok |-> Kind[r] # "badctx", ctx |-> <<>>, body |-> ToString(r), T |-> 0]
FullEv(r) == [e |-> "full", c |-> ConnOf[r], r |-> r, t |-> 0]
StartEv(r) == [e |-> "start", inv |-> r, obj |-> r, tag |-> "1A", meth |-> Meth(Kind[r]), body |-> ToString(r), args |-> "",
               ctx |-> <<>>, t |-> 0]
EndEv(r) == [e |-> "end", inv |-> r, out |-> Out(Kind[r]), body |-> "res" \o ToString(r), t |-> 0]
ReplyEv(r, st, body) == [e |-> "reply", c |-> ConnOf[r], id |-> 10 + r, ty |-> 0, cmd |-> 2, cls |-> "resp", st |-> st,
                         body |-> body, t |-> 0]
HbEv(r) == [e |-> "reply", c |-> ConnOf[r], id |-> 10 + r, ty |-> 0, cmd |-> 0, cls |-> "none", st |-> 0, body |-> "", t |-> 0]
Observe(ev) == mon' = Apply(mon, ev) /\ bad' = bad \cup Bad(mon, ev)
Silent == UNCHANGED <<mon, bad>>
Lab(a, x) == lab' = <<a, x>>

Init == /\ pc = [r \in R |-> "new"] /\ chan = [c \in C |-> <<>>] /\ eof = [c \in C |-> FALSE]
        /\ gate = [r \in R |-> FALSE] /\ hand = [c \in C |-> "read"]
        /\ mon = [Start0(Cfg) EXCEPT !.conn = [c \in C |-> [l |-> 1, eof |-> "no", closed |-> FALSE]]]
        /\ bad = {} /\ lab = <<"init", 0>>

Send(r) == /\ pc[r] = "new" /\ ~eof[ConnOf[r]]
           /\ \A x \in R : x < r /\ ConnOf[x] = ConnOf[r] => pc[x] # "new"
           /\ pc' = [pc EXCEPT ![r] = IF Kind[r] = "cut" THEN "part" ELSE "sent"]
           /\ chan' = [chan EXCEPT ![ConnOf[r]] = IF Kind[r] = "cut" THEN @ ELSE Append(@, r)]
           /\ IF Kind[r] = "cut" THEN Observe(SendEv(r))
              ELSE mon' = Apply(Apply(mon, SendEv(r)), FullEv(r)) /\ bad' = bad
           /\ Lab("Send", r) /\ UNCHANGED <<eof, gate, hand>>
Release(r) == /\ Kind[r] \in Gated /\ ~gate[r] /\ pc[r] # "new" /\ gate' = [gate EXCEPT ![r] = TRUE]
              /\ Silent /\ Lab("Release", r) /\ UNCHANGED <<pc, chan, eof, hand>>
Eof(c) == /\ ~eof[c] /\ eof' = [eof EXCEPT ![c] = TRUE]
          /\ Observe([e |-> "eof", c |-> c, mode |-> "half"]) /\ Lab("Eof", c) /\ UNCHANGED <<pc, chan, gate, hand>>

(* the thread of a connection *)
Hand(c, h) == hand' = [hand EXCEPT ![c] = h]
First(c) == Head(chan[c])
Read(c) == hand[c] = "read" /\ chan[c] # <<>>
Answer(r, ev) == IF (Kind[r] \in OneWay /\ Defect # "answerOneway") \/ Defect = "dropReply" THEN Silent ELSE Observe(ev)
HbReply(c) == /\ Read(c) /\ Kind[First(c)] = "hb" /\ Observe(HbEv(First(c))) /\ Hand(c, "close") /\ Lab("Reply", First(c))
              /\ UNCHANGED <<pc, chan, eof, gate>>
(* unroutable and malformed requests: an answer is optional, SUCCESS is not an option *)
Refuse(c) == /\ Read(c) /\ Kind[First(c)] \notin Runs \cup {"hb"} /\ Hand(c, "close") /\ Lab("Refuse", First(c))
             /\ IF Kind[First(c)] \in {"nosvc", "nometh"} THEN Answer(First(c), ReplyEv(First(c), CLIENT_SEND_ERROR, "")) ELSE Silent
             /\ UNCHANGED <<pc, chan, eof, gate>>
Begin(c) == /\ Read(c) /\ Kind[First(c)] \in Runs /\ Hand(c, "run") /\ Observe(StartEv(First(c))) /\ Lab("Start", First(c))
            /\ UNCHANGED <<pc, chan, eof, gate>>
End(c) == /\ hand[c] = "run" /\ gate[First(c)] /\ Observe(EndEv(First(c))) /\ Lab("End", First(c))
          /\ Hand(c, IF Out(Kind[First(c)]) = "bytes" THEN "write" ELSE IF Defect = "hide" THEN "lie"
                     ELSE IF Defect = "keepOpen" THEN "stuck" ELSE "close")
          /\ UNCHANGED <<pc, chan, eof, gate>>
Write(c) == /\ hand[c] = "write" /\ Answer(First(c), ReplyEv(First(c), 0, "res" \o ToString(First(c)))) /\ Lab("Reply", First(c))
            /\ Hand(c, "close") /\ UNCHANGED <<pc, chan, eof, gate>>
Lie(c) == /\ hand[c] = "lie" /\ Answer(First(c), ReplyEv(First(c), 0, "")) /\ Lab("Reply", First(c))
          /\ Hand(c, "close") /\ UNCHANGED <<pc, chan, eof, gate>>
AtEof(c) == /\ hand[c] = "read" /\ chan[c] = <<>> /\ eof[c] /\ Defect # "keepOpen"
            /\ Hand(c, "close") /\ Silent /\ Lab("AtEof", c) /\ UNCHANGED <<pc, chan, eof, gate>>
Close(c) == /\ hand[c] = "close" /\ Hand(c, "gone") /\ Observe([e |-> "closed", c |-> c]) /\ Lab("Close", c)
            /\ UNCHANGED <<pc, chan, eof, gate>>

System == \E c \in C : HbReply(c) \/ Refuse(c) \/ Begin(c) \/ End(c) \/ Write(c) \/ Lie(c) \/ AtEof(c) \/ Close(c)
Env == (\E r \in R : Send(r) \/ Release(r)) \/ (\E c \in C : Eof(c))
Next == System \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(System) /\ \A r \in R : WF_vars(Release(r))

Clean == bad = {}
Quiescent == ~ENABLED System
Settled == Quiescent => BadQuietSock(mon, [e |-> "quiet", t |-> 100000, held |-> Cardinality({c \in C : hand[c] # "gone"})]) = {}
Once == \A r \in DOMAIN mon.req : mon.req[r].nrep <= IF mon.req[r].ty = "one" THEN 0 ELSE 1
TypeOK == \A c \in C : hand[c] \in {"read", "run", "write", "lie", "stuck", "close", "gone"}
(* a connection whose first request is complete, or which ended, is let go *)
Answered == \A c \in C : (chan[c] # <<>> \/ eof[c]) ~> (hand[c] = "gone")
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
=============================================================================
