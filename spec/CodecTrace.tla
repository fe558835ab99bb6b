----------------------------- MODULE CodecTrace -----------------------------
(* Judges records of what the real codec did (clauses of P01 and P02). *)
EXTENDS Codec, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l

ClassOf(n) == IF n = "req" THEN ReqClass ELSE IF n = "resp" THEN RespClass ELSE <<>>
If(c, s) == IF c THEN {s} ELSE {}

(* a serialised package *)
BadEnc(ev) ==
    IF ~ev.ok THEN {"P01.refused"}
    ELSE If(~IsFrame(ev.kind, ev.b, ev.f, ClassOf(ev.cls), ev.hdr, ev.content), "P01.layout")
         \cup If(ev.lens # <<Len(ClassOf(ev.cls)), MapSize(ev.hdr), Len(ev.content),
                             Len(ClassOf(ev.cls)) + MapSize(ev.hdr) + Len(ev.content)>>, "P01.lengths")

(* a parsed byte string *)
BadDec(ev) ==
    LET d == Decode(ev.kind, ev.b) IN
    IF d.ok
    THEN IF ~ev.ok THEN {"P01.refused"}
         ELSE If(ev.f # d.f \/ ev.content # d.content \/ FunMap(ev.hdr) # d.m, "P01.roundtrip")
    ELSE IF ev.ok THEN {"P01.accepted"} ELSE If(~ev.perr, "P01.exception")

BadHEnc(ev) ==
    IF ~ev.ok THEN {"P02.refused"}
    ELSE LET m == DecMap(ev.b) IN
         If(~(m.ok /\ m.m = FunMap(ev.hdr) /\ m.n = Cardinality(DOMAIN m.m) /\ Len(ev.b) = MapSize(ev.hdr)), "P02.encode")
         \cup If(ev.len # MapSize(ev.hdr), "P02.length")

BadHDec(ev) ==
    LET m == DecMap(ev.b) IN
    IF m.ok THEN IF ~ev.ok THEN {"P02.refused"} ELSE If(FunMap(ev.hdr) # m.m, "P02.entries")
    ELSE IF ev.ok THEN {"P02.accepted"} ELSE If(~ev.derr, "P02.exception")

Bad(ev) == IF ev.op = "enc" THEN BadEnc(ev) ELSE IF ev.op = "dec" THEN BadDec(ev)
           ELSE IF ev.op = "henc" THEN BadHEnc(ev) ELSE BadHDec(ev)

Init == t \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[t].ev)
        /\ LET b == Bad(Traces[t].ev[l]) IN b # {} => PrintT(ToJson(<<"BAD", t, l, b>>))
        /\ l' = l + 1 /\ t' = t
TraceSpec == Init /\ [][Next]_<<t, l>>
=============================================================================
