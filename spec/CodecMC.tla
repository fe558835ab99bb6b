------------------------------ MODULE CodecMC ------------------------------
(* Design model of the codec: a sender serialises a package, a hostile channel may corrupt the bytes, a receiver    *)
(* parses them.  TLC visits every package of the domain and every corruption, checks the codec's guarantees, and    *)
(* prints each case; the real code is then run on every printed case.                                               *)
EXTENDS Codec, Json
CONSTANTS Tier

VARIABLES phase, pkg, wire, how

F(k, pt, c, cd, id, x) == [kind |-> k, proto |-> 1, ptype |-> pt, cmd |-> c, ver2 |-> 1, codec |-> cd, id |-> id, x |-> x]
a == <<97>>
eacute == <<233>>
emoji == <<128512>>
Maps == << <<>>, << <<a, a>> >>, << << <<>>, <<>> >> >>, << <<eacute, <<8364, 97>>>>, <<emoji, <<>>>> >>,
           << <<<<65535>>, <<1114111>>>>, <<<<127, 128>>, <<2047, 2048>>>>, <<<<0>>, <<55295, 57344, 65536>>>> >> >>
Contents == << <<>>, <<0>>, <<255, 0, 1, 128>>, [i \in 1..300 |-> i % 256] >>
Ids == {0, 1, 255, 256, 65535, 65536, 16777216, 2147483647}
Timeouts == {-2147483647 - 1, -65536, -1, 0, 1, 127, 128, 3000, 65536, 2147483647}

Kinds == {"req", "resp"}
(* every field over its whole range with the others fixed, plus a product of the enumerations *)
Pkgs ==
    LET fields ==
        {F("req", pt, c, cd, id, 3000) : pt \in PTYPES, c \in CMDS, cd \in CODECS, id \in {7, 2147483647}}
        \cup {F("resp", pt, c, cd, id, 0) : pt \in PTYPES, c \in CMDS, cd \in CODECS, id \in {7, 2147483647}}
        \cup {F("req", 1, 1, 11, id, x) : id \in Ids, x \in Timeouts}
        \cup {F("resp", 0, 2, 11, id, x) : id \in Ids, x \in STATUSES}
    IN {[f |-> f, m |-> 2, c |-> 3] : f \in fields}
       \cup {[f |-> f, m |-> m, c |-> c] : f \in {F("req", 1, 1, 11, 258, -1), F("resp", 0, 2, 11, 258, 3)},
                                           m \in 1..Len(Maps), c \in 1..Len(Contents)}

ClsOf(k) == IF k = "req" THEN ReqClass ELSE RespClass
Fld(f) == [proto |-> f.proto, ptype |-> f.ptype, cmd |-> f.cmd, ver2 |-> f.ver2, id |-> f.id, codec |-> f.codec, x |-> f.x]
Bytes(p) == Frame(p.f.kind, Fld(p.f), ClsOf(p.f.kind), EncMap(Maps[p.m]), Contents[p.c])

(* the two frames that are corrupted at every position *)
Base(p) == p.f.id = 258 /\ ((p.c = 3 /\ p.m = 2) \/ (p.c = 2 /\ p.m = 4))

Interesting == {0, 1, 2, 3, 10, 11, 12, 16, 17, 18, 19, 127, 128, 254, 255}
Init == phase = "pkg" /\ pkg \in Pkgs /\ wire = <<>> /\ how = <<"none">>
Serialise == phase = "pkg" /\ wire' = Bytes(pkg) /\ phase' = "wire" /\ UNCHANGED <<pkg, how>>
Cut == \E n \in 0..Len(wire) - 1 : wire' = SubSeq(wire, 1, n) /\ how' = <<"cut", n>>
Extend == \E s \in {<<0>>, <<255>>, <<0, 0, 0, 0>>} : wire' = wire \o s /\ how' = <<"ext", Len(s)>>
Flip == \E i \in 1..Len(wire), v \in (IF Tier = "thorough" THEN 0..255 ELSE Interesting) :
            /\ wire[i] # v
            /\ i \notin FixedLen(pkg.f.kind) + 5 .. FixedLen(pkg.f.kind) + 40   \* the inside of the class name
            /\ wire' = [wire EXCEPT ![i] = v] /\ how' = <<"flip", i, v>>
(* the fixed fields with every byte value, in both tiers *)
FlipFixed == \E i \in 1..FixedLen(pkg.f.kind), v \in 0..255 :
            /\ wire[i] # v /\ wire' = [wire EXCEPT ![i] = v] /\ how' = <<"flip", i, v>>
Corrupt == phase = "wire" /\ Base(pkg) /\ (Cut \/ Extend \/ Flip \/ FlipFixed) /\ phase' = "bad" /\ UNCHANGED pkg
Next == Serialise \/ Corrupt
vars == <<phase, pkg, wire, how>>
Spec == Init /\ [][Next]_vars

(* ---- what the format guarantees *)
RoundTrip == phase = "wire" =>
    LET d == Decode(pkg.f.kind, wire) IN
    d.ok /\ d.f = Fld(pkg.f) /\ d.m = FunMap(Maps[pkg.m]) /\ d.content = Contents[pkg.c] /\ d.cls = ClsOf(pkg.f.kind)
    /\ IsFrame(pkg.f.kind, wire, Fld(pkg.f), ClsOf(pkg.f.kind), Maps[pkg.m], Contents[pkg.c])
(* cutting or extending a frame is always noticed *)
Framed == how[1] \in {"cut", "ext"} => ~Decode(pkg.f.kind, wire).ok
(* an accepted byte string is the serialisation of what it is parsed to (up to null markers) *)
Canonical == phase = "bad" =>
    LET d == Decode(pkg.f.kind, wire) IN
    d.ok => Len(wire) - FixedLen(pkg.f.kind) >= Len(d.cls) + Len(d.content)
         /\ Known(pkg.f.kind, d.f)
Emit == IF phase = "wire" THEN PrintT(ToJson(<<"PKG", pkg.f.kind, Fld(pkg.f), Maps[pkg.m], Contents[pkg.c]>>))
        ELSE IF phase = "bad" THEN PrintT(ToJson(<<"BYTES", pkg.f.kind, wire>>)) ELSE TRUE
Inv == RoundTrip /\ Framed /\ Canonical /\ Emit
=============================================================================
