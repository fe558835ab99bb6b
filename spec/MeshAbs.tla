------------------------------- MODULE MeshAbs -------------------------------
(* Abstract specification of the mesh registration API: which HTTP requests an operation may and must send, and     *)
(* what it may return.  Operations may overlap (threads); requests are seen by the mesh's HTTP endpoint.             *)
(*                                                                                                                   *)
(*   call(op, k, cl, want)   operation op of mesh client / listener cl begins; want = its requests <<path, data>>    *)
(*   post(id, path, data)    the mesh receives a request;  ans(id, good) it answers (good: HTTP 200, success true)   *)
(*   ret(op, ok)             the operation returns (ok) or raises                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(c, x) == IF c THEN {x} ELSE {}
Empty == <<>>
APP == "configs/application"

Start0(cfg) == [started |-> {}, op |-> Empty, post |-> Empty]

Pending(s) == {o \in DOMAIN s.op : ~s.op[o].over}
Wants(s, o) == {s.op[o].want[i] : i \in 1..Len(s.op[o].want)}
Key(ev) == <<ev.path, ev.data>>

(* ---- registration: which of several concurrent startups posted can't be seen, so they are counted per client *)
StartOps(s, cl) == {o \in DOMAIN s.op : s.op[o].k \in {"startup", "ctor"} /\ s.op[o].cl = cl}
StartPosts(s, cl) == {p \in DOMAIN s.post : s.post[p].cl = cl}
StartFails(s, cl) == Cardinality({p \in StartPosts(s, cl) : s.post[p].res = "bad"})
StartSenders(s, ev) == {o \in Pending(s) : s.op[o].k \in {"startup", "ctor"} /\ Key(ev) \in Wants(s, o)}
Client(s, ev) == s.op[CHOOSE o \in StartSenders(s, ev) : TRUE].cl
BadAppPost(s, ev) ==
    IF StartSenders(s, ev) = {} THEN {"P23.unexpected"}
    ELSE LET cl == Client(s, ev) IN
         If(cl \in s.started, "P23.again")
         \cup If(Cardinality(StartPosts(s, cl)) >= Cardinality(StartOps(s, cl)), "P23.repeated")

(* ---- the other operations: their data tells them apart *)
(* the operations in progress which may have sent this request: not sent yet, and nothing of theirs failed before *)
Senders(s, ev) == {o \in Pending(s) : s.op[o].k \notin {"startup", "ctor"} /\ Key(ev) \in Wants(s, o) /\ Key(ev) \notin s.op[o].sent
                                      /\ s.op[o].nbad = 0}
Sender(s, ev) == CHOOSE o \in Senders(s, ev) : TRUE
BadPost(s, ev) ==
    IF ev.path = APP THEN BadAppPost(s, ev)
    ELSE IF Senders(s, ev) # {} THEN {}
    ELSE IF \E o \in Pending(s) : Key(ev) \in Wants(s, o) /\ Key(ev) \in s.op[o].sent THEN {"P23.repeated"}
    ELSE IF \E o \in Pending(s) : Key(ev) \in Wants(s, o) THEN {"P23.afterfailure"}
    ELSE {"P23.unexpected"}

BadRet(s, ev) ==
    LET o == s.op[ev.op] IN
    IF o.k = "startup"
    THEN IF ev.ok THEN If(o.cl \notin s.started, "P23.silent")
         ELSE If(o.nbad = 0 /\ StartFails(s, o.cl) = o.fails0, "P23.spurious")
    ELSE IF o.k = "ctor"   \* constructing a client or listener starts its mesh client and never fails
    THEN If(~ev.ok, "P23.ctor") \cup If(o.cl \notin s.started /\ o.nbad = 0 /\ StartFails(s, o.cl) = o.fails0, "P23.notsent")
    ELSE IF ev.ok THEN If(o.sent # Wants(s, ev.op), "P23.notsent") \cup If(o.nbad > 0, "P23.silent")
         ELSE If(o.nbad = 0, "P23.spurious")

Bad(s, ev) ==
    CASE ev.e = "post" -> BadPost(s, ev)
      [] ev.e = "ans" -> If(ev.good /\ s.post[ev.id].cl \in s.started, "P23.again")
      [] ev.e = "ret" -> BadRet(s, ev)
      [] OTHER -> {}

Apply(s, ev) ==
    CASE ev.e = "call" -> [s EXCEPT !.op = @ @@ (ev.op :> [k |-> ev.k, cl |-> ev.cl, want |-> ev.want, sent |-> {}, nbad |-> 0,
                                                           over |-> FALSE, fails0 |-> StartFails(s, ev.cl)])]
      [] ev.e = "post" ->
            IF ev.path = APP
            THEN [s EXCEPT !.post = @ @@ (ev.id :> [op |-> 0, res |-> "none",
                     cl |-> IF StartSenders(s, ev) = {} THEN "none" ELSE Client(s, ev)])]
            ELSE IF Senders(s, ev) = {} THEN [s EXCEPT !.post = @ @@ (ev.id :> [op |-> 0, res |-> "none", cl |-> "none"])]
            ELSE LET o == Sender(s, ev) IN
                 [s EXCEPT !.post = @ @@ (ev.id :> [op |-> o, res |-> "none", cl |-> "none"]), !.op[o].sent = @ \cup {Key(ev)}]
      [] ev.e = "ans" ->
            LET o == s.post[ev.id].op
                s1 == [s EXCEPT !.post[ev.id].res = IF ev.good THEN "good" ELSE "bad"]
            IN IF o # 0 THEN [s1 EXCEPT !.op[o].nbad = IF ev.good THEN @ ELSE @ + 1]
               ELSE IF ev.good /\ s.post[ev.id].cl # "none" THEN [s1 EXCEPT !.started = @ \cup {s.post[ev.id].cl}] ELSE s1
      [] ev.e = "refused" ->     \* the mesh was not listening when the operation began: what it sends is lost
            [s EXCEPT !.op[ev.op].nbad = @ + 1]
      [] ev.e = "ret" -> [s EXCEPT !.op[ev.op].over = TRUE]
      [] OTHER -> s
==============================================================================
