----------------------------- MODULE SyncClient -----------------------------
(* Design of a blocking call: connect, transmit the request piece by piece, then read: first the fixed header, then  *)
(* as many bytes as it announces; decide.  The peer takes pieces, sends the bytes of a response one by one, stops,    *)
(* closes, or lets time pass.  Bytes are counted: the response has HEAD bytes of fixed header and LEN in all.         *)
EXTENDS SyncAbs, Json
CONSTANTS Kind,    \* sync / one
          Resp,    \* what the peer would respond with: ok / fail / foreign / bad
          Pieces,  \* pieces the request is transmitted in; one piece fits between the two
          Emit, Defect
HEAD == 2
LEN == 4
T == 2000
VARIABLES st, sent, taken, stalled, wire, rcvd, head, lost, refuse, late, mon, bad, lab
world == <<sent, taken, stalled, wire, rcvd, head, lost, refuse, late>>
vars == <<st, world, mon, bad, lab>>
view == <<st, world, mon, bad>>
gview == <<st, world>>
proj == [st |-> st, sent |-> sent, taken |-> taken, stalled |-> stalled, wire |-> wire, rcvd |-> rcvd, head |-> head, lost |-> lost,
         refuse |-> refuse, late |-> late]
now == IF late THEN T + GRACE + 1 ELSE 0
id == 7
Feed(evs) == LET F[i \in 0..Len(evs)] == IF i = 0 THEN <<mon, bad>>
                                         ELSE <<Apply(F[i-1][1], evs[i]), F[i-1][2] \cup Bad(F[i-1][1], evs[i])>>
             IN mon' = F[Len(evs)][1] /\ bad' = F[Len(evs)][2]
Silent == UNCHANGED <<mon, bad>>
Lab(a, x) == lab' = <<a, x>>
Ret(ok) == [e |-> "ret", t |-> now, k |-> 1, ok |-> ok, body |-> "r", srv |-> FALSE, to |-> FALSE, named |-> <<>>,
            val |-> IF Kind = "one" THEN "none" ELSE "bytes"]
Err(srv, named) == [Ret(FALSE) EXCEPT !.srv = srv, !.named = named]
RespEv == [e |-> "resp", t |-> now, n |-> 1, id |-> IF Resp = "foreign" THEN 8 ELSE id, st |-> IF Resp = "fail" THEN 7 ELSE 0,
           body |-> "r", form |-> IF Resp = "bad" THEN "bad" ELSE "ok"]
Init == /\ st = "new" /\ sent = 0 /\ stalled = FALSE /\ taken = 0 /\ wire = 0 /\ rcvd = 0 /\ head = FALSE /\ lost = FALSE /\ late = FALSE /\ refuse \in BOOLEAN
        /\ mon = (IF refuse THEN Apply(Start0(1), [e |-> "down", t |-> 0, a |-> 1]) ELSE Start0(1)) /\ bad = {} /\ lab = <<"init", 0>>
Call == /\ st = "new" /\ st' = "connect" /\ Lab("Call", 0) /\ UNCHANGED world
        /\ Feed(<<[e |-> "call", t |-> 0, k |-> 1, kind |-> Kind, a |-> 1, T |-> T, enc |-> TRUE]>>)
Connect == /\ st = "connect" /\ Lab("Connect", 0) /\ UNCHANGED world
           /\ IF refuse THEN st' = "done" /\ Feed(<<Err(FALSE, <<>>)>>)
              ELSE st' = "send" /\ Feed(<<[e |-> "acc", t |-> 0, n |-> 1, a |-> 1]>>)
(* the client hands over a piece of the request; after the last one it reads, or is done *)
Send == /\ st = "send" /\ ~lost /\ sent - taken < 1 /\ sent' = sent + 1 /\ Lab("Send", sent + 1)
        /\ IF sent + 1 < Pieces /\ Defect # "partialSend" THEN st' = st /\ Silent
           ELSE IF Kind = "one" /\ Defect # "oneWait" THEN st' = "done" /\ Feed(<<Ret(TRUE)>>)
           ELSE st' = "read" /\ Silent
        /\ UNCHANGED <<taken, stalled, wire, rcvd, head, lost, refuse, late>>
SendFails == /\ st = "send" /\ lost /\ st' = "done" /\ Feed(<<Err(FALSE, <<>>)>>) /\ Lab("SendFails", 0) /\ UNCHANGED world
(* the peer takes a piece; with the last one the request is complete *)
Take == /\ taken < sent /\ ~stalled /\ ~lost /\ taken' = taken + 1 /\ Lab("Take", taken + 1)
        /\ (IF taken + 1 = Pieces
            THEN Feed(<<[e |-> "req", t |-> now, n |-> 1, k |-> 1, id |-> id, ty |-> IF Kind = "one" THEN 2 ELSE 1, cmd |-> 1,
                         intact |-> TRUE]>>)
            ELSE Silent)
        /\ UNCHANGED <<st, sent, stalled, wire, rcvd, head, lost, refuse, late>>
PeerStall == /\ st \in {"send", "read"} /\ ~stalled /\ taken < Pieces /\ ~lost /\ stalled' = TRUE /\ Lab("Stall", 0)
             /\ Feed(<<[e |-> "stall", t |-> now, n |-> 1, on |-> TRUE]>>) /\ UNCHANGED <<st, sent, taken, wire, rcvd, head, lost, refuse, late>>
PeerByte == /\ taken = Pieces /\ Kind # "one" /\ ~lost /\ wire < LEN /\ st # "done" /\ wire' = wire + 1 /\ Lab("Byte", wire + 1)
            /\ (IF wire + 1 = LEN THEN Feed(<<RespEv>>) ELSE Silent)
            /\ UNCHANGED <<st, sent, taken, stalled, rcvd, head, lost, refuse, late>>
PeerLose == /\ st \in {"send", "read"} /\ ~lost /\ lost' = TRUE /\ Feed(<<[e |-> "lose", t |-> now, n |-> 1]>>) /\ Lab("Lose", wire)
            /\ UNCHANGED <<st, sent, taken, stalled, wire, rcvd, head, refuse, late>>
Want == IF head THEN LEN ELSE HEAD
Read == \E x \in 1..(wire - rcvd) :       \* a read returns some of the bytes which have arrived
        /\ st = "read" /\ rcvd + x <= Want /\ rcvd' = rcvd + x /\ head' = (head \/ rcvd + x >= HEAD)
        /\ Silent /\ Lab("Read", x) /\ UNCHANGED <<st, sent, taken, stalled, wire, lost, refuse, late>>
Eof == /\ st = "read" /\ lost /\ rcvd = wire /\ (rcvd < LEN \/ ~head) /\ Lab("Eof", 0) /\ UNCHANGED world
       /\ (IF Defect = "spin" THEN UNCHANGED st /\ Silent
           ELSE st' = "done" /\ Feed(<<IF Defect = "partial" THEN Ret(TRUE) ELSE Err(TRUE, <<>>)>>))
Decide == /\ st = "read" /\ head /\ rcvd = LEN /\ st' = "done" /\ Lab("Decide", 0) /\ UNCHANGED world
          /\ Feed(<<IF Resp = "ok" \/ Defect = "hide" \/ (Defect = "anyId" /\ Resp = "foreign") THEN Ret(TRUE)
                    ELSE IF Resp = "fail" THEN Err(TRUE, <<7>>) ELSE Err(TRUE, <<>>)>>)
Acting == \/ Connect \/ Send \/ SendFails \/ Read \/ Decide \/ (Eof /\ Defect # "spin")
Peer == Take
Tick == /\ ~late /\ st \in {"send", "read"} /\ ~ENABLED Acting /\ ~ENABLED Peer /\ late' = TRUE /\ Silent /\ Lab("Tick", 0)
        /\ UNCHANGED <<st, sent, taken, stalled, wire, rcvd, head, lost, refuse>>
Timeout == /\ late /\ Kind = "sync" /\ st \in {"send", "read"} /\ ~ENABLED Acting /\ Defect \notin {"noTimeout", "spin"} /\ st' = "done"
           /\ Feed(<<[Ret(FALSE) EXCEPT !.to = TRUE]>>) /\ Lab("Timeout", 0) /\ UNCHANGED world
System == Acting \/ Timeout
Next == Call \/ PeerStall \/ Peer \/ PeerByte \/ PeerLose \/ Tick \/ System \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(System) /\ WF_vars(Peer) /\ WF_vars(Tick)
Clean == bad = {}
Settled == (~ENABLED System /\ ~ENABLED Tick /\ ~ENABLED Peer) => BadQuiet(mon, [e |-> "quiet", t |-> 200000]) = {}
Returns == (st # "new") ~> (st = "done")
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
=============================================================================
