----------------------------- MODULE BoltClient -----------------------------
(* Design of the asyncio client: a dial lock and one shared connection per address, a table of waiting requests, a   *)
(* receiving coroutine per connection, resending of interrupted requests.  The environment makes calls, accepts,     *)
(* reads, responds (in any order, twice, undecodably), loses connections, refuses them and lets time pass.           *)
(* Every observable step feeds the abstract specification (mon); `bad` collects the clauses it would break.          *)
EXTENDS ClientAbs, Json
CONSTANTS Kind,      \* sequence: sync / async / cb / one / hb / short (a sync call with a short timeout) / big / unenc
                     \* / drop (an asynchronous call whose caller may cancel it)
          AddrOf,    \* sequence: the address of each call
          Losses, Downs, Extras,   \* how often connections are lost, addresses go down, superfluous responses are sent
          Forms,     \* how a response may look: ok / fail / bad
          Emit, Defect
K == 1..Len(Kind)
A == {AddrOf[k] : k \in K}
Tries == IF Defect = "fourTries" THEN 4 ELSE IF Defect = "oneTry" THEN 1 ELSE 3
NowLate == 3000
VARIABLES pc, cn, tries, evt, resp, woken, map, lock, conns, got, retd, down, now, nloss, ndown, nextra, mon, bad, lab
vars == <<pc, cn, tries, evt, resp, woken, map, lock, conns, got, retd, down, now, nloss, ndown, nextra, mon, bad, lab>>
view == <<pc, cn, tries, evt, resp, woken, map, lock, conns, got, retd, down, now, nloss, ndown, nextra, mon, bad>>
proj == [pc |-> pc, cn |-> cn, evt |-> evt, resp |-> resp, woken |-> woken, map |-> [a \in A |-> map[a]], lock |-> [a \in A |-> lock[a]],
         conns |-> conns, got |-> got, retd |-> retd, down |-> down, now |-> now, x |-> <<nloss, ndown, nextra>>]
gview == <<pc, cn, tries, evt, resp, woken, map, lock, conns, got, retd, down, now, nloss, ndown, nextra>>

Abs(k) == CASE Kind[k] \in {"short", "unenc"} -> "sync" [] Kind[k] \in {"big", "drop"} -> "async" [] OTHER -> Kind[k]
T(k) == IF Kind[k] = "short" THEN 2000 ELSE 1000000
None == [form |-> "none", body |-> "", st |-> 0]
CallEv(k) == [e |-> "call", t |-> now, k |-> k, kind |-> Abs(k), a |-> AddrOf[k], T |-> T(k), enc |-> Kind[k] # "unenc"]
Ret(k, ok, body) == [e |-> "ret", t |-> now, k |-> k, ok |-> ok, body |-> body, srv |-> FALSE, to |-> FALSE, named |-> <<>>,
                     val |-> IF ok THEN "bytes" ELSE ""]
RetErr(k, st) == [Ret(k, FALSE, "") EXCEPT !.srv = st # 0, !.named = IF st # 0 THEN <<st>> ELSE <<>>]
RetHb(k, v) == [Ret(k, TRUE, "") EXCEPT !.val = v]
RetOne(k) == [Ret(k, TRUE, "") EXCEPT !.val = "none"]
RetTo(k) == [Ret(k, FALSE, "") EXCEPT !.to = TRUE]
ReqEv(n, k) == [e |-> "req", t |-> now, n |-> n, k |-> k, id |-> k, intact |-> TRUE,
                ty |-> IF Kind[k] = "one" /\ Defect # "oneType" THEN 2 ELSE 1, cmd |-> IF Kind[k] = "hb" THEN 0 ELSE 1]
Msg(k, f) == [k |-> k, form |-> f, body |-> "r" \o ToString(k), st |-> IF f = "fail" THEN 7 ELSE 0]
RespEv(n, m) == [e |-> "resp", t |-> now, n |-> n, id |-> m.k, st |-> m.st, body |-> m.body,
                 form |-> IF m.form = "bad" THEN "bad" ELSE IF m.k \in K /\ Kind[m.k] = "hb" THEN "hb" ELSE "ok"]

RECURSIVE Feed(_, _, _)
Feed(m, b, evs) == IF evs = <<>> THEN <<m, b>> ELSE Feed(Apply(m, Head(evs)), b \cup Bad(m, Head(evs)), Tail(evs))
Observe(evs) == LET r == Feed(mon, bad, evs) IN mon' = r[1] /\ bad' = r[2]
Silent == UNCHANGED <<mon, bad>>
Lab(a, x, y) == lab' = <<a, x, y>>

Init == /\ pc = [k \in K |-> "new"] /\ cn = [k \in K |-> 0] /\ tries = [k \in K |-> 0] /\ evt = {} /\ resp = [k \in K |-> None]
        /\ woken = {} /\ map = [a \in A |-> 0] /\ lock = [a \in A |-> 0] /\ conns = <<>> /\ got = {} /\ retd = {}
        /\ down = {} /\ now = 0 /\ nloss = 0 /\ ndown = 0 /\ nextra = 0 /\ mon = Start0([x |-> 0]) /\ bad = {}
        /\ lab = <<"init", 0, 0>>

(* ------------------------------------------------------------------ what a finished call reports *)
End(k, r) ==   \* r: the response, or None
    CASE Kind[k] = "one" -> <<>>
      [] Kind[k] = "hb" -> <<RetHb(k, IF Defect = "hbTrue" \/ (r.form = "ok" /\ r.st = 0) THEN "true" ELSE "false")>>
      [] r.form = "ok" -> <<Ret(k, TRUE, r.body)>> \o (IF Kind[k] = "cb" THEN <<[e |-> "cb", t |-> now, k |-> k, body |-> r.body]>> ELSE <<>>)
      [] r.form = "fail" -> (IF Defect = "hide" THEN <<Ret(k, TRUE, r.body)>> ELSE <<RetErr(k, r.st)>>)
                            \o (IF Kind[k] = "cb" /\ Defect = "cbFail" THEN <<[e |-> "cb", t |-> now, k |-> k, body |-> r.body]>> ELSE <<>>)
      [] OTHER -> <<RetErr(k, 0)>>
Finish(k, r) == /\ pc' = [pc EXCEPT ![k] = "done"]
                /\ retd' = retd \cup {k}
                /\ Observe(IF k \in retd THEN <<>> ELSE End(k, r))

(* ------------------------------------------------------------------ environment *)
Call(k) == /\ pc[k] = "new" /\ \A x \in K : x < k => pc[x] # "new"
           /\ IF Kind[k] = "unenc"
              THEN /\ pc' = [pc EXCEPT ![k] = "done"] /\ retd' = retd \cup {k} /\ UNCHANGED evt
                   /\ Observe(<<CallEv(k), RetErr(k, 0)>>)
              ELSE /\ pc' = [pc EXCEPT ![k] = "want"]
                   /\ evt' = IF Defect = "lateReg" THEN evt ELSE evt \cup {k}
                   /\ (IF Kind[k] = "one" /\ Defect # "oneWait" THEN Observe(<<CallEv(k), RetOne(k)>>) /\ retd' = retd \cup {k}
                       ELSE Observe(<<CallEv(k)>>) /\ UNCHANGED retd)
           /\ Lab("Call", k, 0) /\ UNCHANGED <<cn, tries, resp, woken, map, lock, conns, got, down, now, nloss, ndown, nextra>>
Respond(k, f) ==
    LET n == cn[k]
        again == \E i \in 1..Len(mon.call[k].rs) : TRUE IN
    /\ k \in got /\ n # 0 /\ conns[n].st = "up" /\ Kind[k] # "one"
    /\ again => nextra < Extras
    /\ nextra' = IF again THEN nextra + 1 ELSE nextra
    /\ conns' = [conns EXCEPT ![n].chan = Append(@, Msg(k, f))] /\ Observe(<<RespEv(n, Msg(k, f))>>) /\ Lab("Resp", k, f)
    /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, got, retd, down, now, nloss, ndown>>
Stranger(n) ==   \* a response whose id belongs to nobody
    /\ nextra < Extras /\ conns[n].st = "up" /\ nextra' = nextra + 1
    /\ conns' = [conns EXCEPT ![n].chan = Append(@, Msg(99, "ok"))] /\ Observe(<<RespEv(n, Msg(99, "ok"))>>) /\ Lab("Stranger", n, 0)
    /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, got, retd, down, now, nloss, ndown>>
Lose(n) == /\ conns[n].st = "up" /\ nloss < Losses /\ nloss' = nloss + 1
           /\ conns' = [conns EXCEPT ![n].st = "lost"] /\ Observe(<<[e |-> "lose", t |-> now, n |-> n]>>) /\ Lab("Lose", n, 0)
           /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, got, retd, down, now, ndown, nextra>>
Down(a) == /\ a \notin down /\ ndown < Downs /\ ndown' = ndown + 1 /\ down' = down \cup {a}
           /\ Observe(<<[e |-> "down", t |-> now, a |-> a]>>) /\ Lab("Down", a, 0)
           /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, conns, got, retd, now, nloss, nextra>>
UpAgain(a) == /\ a \in down /\ down' = down \ {a}
              /\ Observe(<<[e |-> "up", t |-> now, a |-> a]>>) /\ Lab("Up", a, 0)
              /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, conns, got, retd, now, nloss, ndown, nextra>>

(* ------------------------------------------------------------------ the client *)
Fail(k) == Finish(k, None) /\ evt' = evt \ {k}
DialStart(k) == /\ pc[k] = "want" /\ map[AddrOf[k]] = 0 /\ (lock[AddrOf[k]] = 0 \/ Defect = "noLock")
                /\ lock' = [lock EXCEPT ![AddrOf[k]] = k] /\ pc' = [pc EXCEPT ![k] = "dial"]
                /\ Silent /\ Lab("DialStart", k, 0)
                /\ UNCHANGED <<cn, tries, evt, resp, woken, map, conns, got, retd, down, now, nloss, ndown, nextra>>
Accept(k) == /\ pc[k] = "dial" /\ AddrOf[k] \notin down
             /\ conns' = Append(conns, [a |-> AddrOf[k], st |-> "up", noticed |-> FALSE, started |-> FALSE, chan |-> <<>>])
             /\ cn' = [cn EXCEPT ![k] = Len(conns) + 1] /\ pc' = [pc EXCEPT ![k] = "dialed"]
             /\ Observe(<<[e |-> "acc", t |-> now, n |-> Len(conns) + 1, a |-> AddrOf[k]]>>) /\ Lab("Accept", k, Len(conns) + 1)
             /\ UNCHANGED <<tries, evt, resp, woken, map, lock, got, retd, down, now, nloss, ndown, nextra>>
Refused(k) == /\ pc[k] = "dial" /\ AddrOf[k] \in down
              /\ lock' = [lock EXCEPT ![AddrOf[k]] = 0] /\ Lab("Refused", k, 0)
              /\ Fail(k)
              /\ UNCHANGED <<cn, tries, resp, woken, map, conns, got, down, now, nloss, ndown, nextra>>
Connected(k) == /\ pc[k] = "dialed" /\ map' = [map EXCEPT ![AddrOf[k]] = cn[k]] /\ lock' = [lock EXCEPT ![AddrOf[k]] = 0]
                /\ pc' = [pc EXCEPT ![k] = "have"] /\ Silent /\ Lab("Connected", k, 0)
                /\ conns' = [conns EXCEPT ![cn[k]].started = TRUE]
                /\ UNCHANGED <<cn, tries, evt, resp, woken, got, retd, down, now, nloss, ndown, nextra>>
Take(k) == /\ pc[k] = "want" /\ map[AddrOf[k]] # 0 /\ cn' = [cn EXCEPT ![k] = map[AddrOf[k]]] /\ pc' = [pc EXCEPT ![k] = "have"]
           /\ Silent /\ Lab("Take", k, 0)
           /\ UNCHANGED <<tries, evt, resp, woken, map, lock, conns, got, retd, down, now, nloss, ndown, nextra>>
Again(k) ==    \* the connection broke under the request
    /\ map' = [map EXCEPT ![AddrOf[k]] = IF @ = cn[k] THEN 0 ELSE @]
    /\ IF k \notin evt /\ Defect # "lateReg"                    \* it has been answered already
       THEN Finish(k, resp[k]) /\ UNCHANGED <<tries, evt, cn, got>>
       ELSE IF tries[k] + 1 >= Tries
       THEN Fail(k) /\ UNCHANGED <<tries, cn, got>>
       ELSE /\ tries' = [tries EXCEPT ![k] = @ + 1] /\ pc' = [pc EXCEPT ![k] = "want"]
            /\ cn' = [cn EXCEPT ![k] = 0] /\ got' = got \ {k}
            /\ Silent /\ UNCHANGED <<evt, retd>>
Written(k) == IF Kind[k] = "one" THEN /\ pc' = [pc EXCEPT ![k] = IF Defect = "oneWait" THEN "waiting" ELSE "done"]
                                      /\ evt' = IF Defect = "oneWait" THEN evt ELSE evt \ {k}
              ELSE pc' = [pc EXCEPT ![k] = IF Defect = "lateReg" THEN "written" ELSE "waiting"] /\ UNCHANGED evt
Write(k) ==
    LET n == cn[k] IN
    /\ pc[k] = "have" /\ Kind[k] # "big"
    /\ IF conns[n].noticed
       THEN Again(k) /\ Lab("Retry", k, 0)
       ELSE /\ Written(k)
            /\ (IF conns[n].st = "up" THEN Observe(<<ReqEv(n, k)>>) /\ got' = got \cup {k} /\ Lab("Req", k, n)
                ELSE Silent /\ UNCHANGED got /\ Lab("WriteLost", k, n))
            /\ UNCHANGED <<tries, map, retd, cn>>
    /\ UNCHANGED <<resp, woken, lock, conns, down, now, nloss, ndown, nextra>>
LateReg(k) == /\ pc[k] = "written" /\ pc' = [pc EXCEPT ![k] = "waiting"] /\ evt' = evt \cup {k} /\ Silent /\ Lab("LateReg", k, 0)
              /\ UNCHANGED <<cn, tries, resp, woken, map, lock, conns, got, retd, down, now, nloss, ndown, nextra>>
(* a large request is sent in two steps: the peer has seen its beginning; it takes the rest *)
BeginBig(k) ==
    LET n == cn[k] IN
    /\ pc[k] = "have" /\ Kind[k] = "big"
    /\ IF conns[n].noticed THEN Again(k)
       ELSE /\ pc' = [pc EXCEPT ![k] = "sending"] /\ UNCHANGED <<tries, map, retd, cn, evt, got>>
            /\ (IF conns[n].st = "up" THEN Observe(<<[e |-> "att", t |-> now, n |-> n, k |-> k]>>) ELSE Silent)
    /\ Lab("Begin", k, n)
    /\ UNCHANGED <<resp, woken, lock, conns, down, now, nloss, ndown, nextra>>
EarlyReq(k) == /\ pc[k] = "sending" /\ k \notin got /\ conns[cn[k]].st = "up" /\ got' = got \cup {k}
               /\ Observe(<<ReqEv(cn[k], k)>>) /\ Lab("Req", k, cn[k])
               /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, conns, retd, down, now, nloss, ndown, nextra>>
Drain(k) == /\ pc[k] = "sending" /\ k \in got /\ conns[cn[k]].st = "up" /\ pc' = [pc EXCEPT ![k] = "waiting"] /\ Silent /\ Lab("Drain", k, 0)
            /\ UNCHANGED <<cn, tries, evt, resp, woken, map, lock, conns, got, retd, down, now, nloss, ndown, nextra>>
Break(k) == /\ pc[k] = "sending" /\ conns[cn[k]].st # "up" /\ Again(k) /\ Lab("Break", k, 0)
            /\ UNCHANGED <<resp, woken, lock, conns, down, now, nloss, ndown, nextra>>
Deliver(n) ==
    LET m == Head(conns[n].chan)
        k == IF Defect = "anyId" /\ evt # {} THEN CHOOSE x \in evt : \A y \in evt : x <= y ELSE m.k IN
    /\ conns[n].started /\ ~conns[n].noticed /\ conns[n].chan # <<>> /\ conns' = [conns EXCEPT ![n].chan = Tail(@)]
    /\ IF k \in evt THEN /\ evt' = evt \ {k} /\ woken' = woken \cup {k} /\ resp' = [resp EXCEPT ![k] = IF m.form = "bad" THEN None ELSE [form |-> m.form, body |-> m.body, st |-> m.st]]
       ELSE UNCHANGED <<evt, woken, resp>>
    /\ Silent /\ Lab("Deliver", n, 0)
    /\ UNCHANGED <<pc, cn, tries, map, lock, got, retd, down, now, nloss, ndown, nextra>>
Notice(n) ==
    LET hit == {k \in evt : pc[k] = "waiting" /\ cn[k] = n} IN
    /\ conns[n].st = "lost" /\ conns[n].started /\ ~conns[n].noticed /\ conns[n].chan = <<>>
    /\ conns' = [conns EXCEPT ![n].noticed = TRUE]
    /\ map' = [a \in A |-> IF map[a] = n /\ Defect # "keepMap" THEN 0 ELSE map[a]]
    /\ IF Defect = "noWake" THEN UNCHANGED <<evt, woken>> ELSE evt' = evt \ hit /\ woken' = woken \cup hit
    /\ Observe(<<[e |-> "cclose", t |-> now, n |-> n]>>) /\ Lab("Notice", n, 0)
    /\ UNCHANGED <<pc, cn, tries, resp, lock, got, retd, down, now, nloss, ndown, nextra>>
Wake(k) == /\ pc[k] = "waiting" /\ k \in woken /\ woken' = woken \ {k} /\ Finish(k, resp[k]) /\ Lab("Ret", k, 0)
           /\ UNCHANGED <<cn, tries, evt, resp, map, lock, conns, got, down, now, nloss, ndown, nextra>>
(* the caller cancels the future: nobody waits for the response any more, everything else goes on *)
Cancel(k) ==
    LET n == cn[k]
        drop == Defect = "cancelDrops" /\ n # 0 /\ pc[k] = "waiting"
        hit == IF drop THEN {x \in evt : pc[x] = "waiting" /\ cn[x] = n} ELSE {k} IN
    /\ Kind[k] = "drop" /\ pc[k] \in {"want", "dial", "have", "waiting"} /\ k \notin retd
    /\ pc' = [pc EXCEPT ![k] = "done"] /\ retd' = retd \cup {k}
    /\ evt' = evt \ (hit \cup {k}) /\ woken' = (woken \cup hit) \ {k}
    /\ lock' = [lock EXCEPT ![AddrOf[k]] = IF pc[k] = "dial" THEN 0 ELSE @]
    /\ conns' = IF drop THEN [conns EXCEPT ![n].st = "lost", ![n].noticed = TRUE] ELSE conns
    /\ map' = [a \in A |-> IF drop /\ map[a] = n THEN 0 ELSE map[a]]
    /\ Observe(<<[e |-> "cancel", t |-> now, k |-> k], RetErr(k, 0)>> \o (IF drop THEN <<[e |-> "cclose", t |-> now, n |-> n]>> ELSE <<>>))
    /\ Lab("Cancel", k, 0)
    /\ UNCHANGED <<cn, tries, resp, got, down, now, nloss, ndown, nextra>>
(* time passes only when the client has nothing to do; then short calls are due *)
Internal == \/ \E k \in K : DialStart(k) \/ Accept(k) \/ Refused(k) \/ Connected(k) \/ Take(k) \/ Write(k) \/ LateReg(k) \/ BeginBig(k)
                            \/ Drain(k) \/ Break(k) \/ Wake(k)
            \/ \E n \in 1..Len(conns) : Deliver(n) \/ Notice(n)
Tick == /\ now = 0 /\ ~ENABLED Internal /\ \E k \in K : Kind[k] = "short" /\ pc[k] = "waiting"
        /\ now' = NowLate /\ Silent /\ Lab("Tick", 0, 0)
        /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, conns, got, retd, down, nloss, ndown, nextra>>
Timeout(k) == /\ Kind[k] = "short" /\ now = NowLate /\ pc[k] \notin {"new", "done"} /\ k \notin retd /\ mon.call[k].t0 = 0
              /\ retd' = retd \cup {k} /\ Observe(<<RetTo([k |-> k].k)>>) /\ Lab("Timeout", k, 0)
              /\ UNCHANGED <<pc, cn, tries, evt, resp, woken, map, lock, conns, got, down, now, nloss, ndown, nextra>>
System == Internal \/ \E k \in K : Timeout(k)
Env == \/ \E k \in K : Call(k) \/ EarlyReq(k) \/ Cancel(k) \/ \E f \in Forms : Respond(k, f)
       \/ \E n \in 1..Len(conns) : Lose(n) \/ Stranger(n)
       \/ \E a \in A : Down(a) \/ UpAgain(a)
       \/ Tick
Next == System \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(System) /\ WF_vars(Tick)

(* ------------------------------------------------------------------ properties *)
Clean == bad = {}
Settled == (~ENABLED System /\ ~ENABLED Tick /\ \A k \in K : pc[k] # "sending") => BadQuiet(mon, [e |-> "quiet", t |-> 200000]) = {}
(* without loss at most one connection per address, and never two live ones *)
OnePerAddress == \A a \in A : Cardinality({n \in 1..Len(conns) : conns[n].a = a /\ conns[n].st = "up"}) <= 1
TableSound == /\ \A k \in evt : pc[k] # "done"
              /\ \A a \in A : map[a] # 0 => conns[map[a]].a = a /\ ~conns[map[a]].noticed
(* a call whose response was sent, or whose connection was lost, ends *)
Ends == \A k \in K : (pc[k] = "waiting" /\ conns[cn[k]].chan # <<>> /\ conns[cn[k]].chan[1].k = k) ~> (k \in retd)
EndsLost == \A k \in K : (pc[k] = "waiting" /\ conns[cn[k]].st = "lost") ~> (k \in retd)
EmitEdge == Emit => PrintT(ToJson(<<"EDGE", proj, lab', proj'>>))
EmitInit == (Emit /\ lab[1] = "init") => PrintT(ToJson(<<"INIT", proj>>))
=============================================================================
