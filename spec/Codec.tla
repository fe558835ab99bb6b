------------------------------- MODULE Codec -------------------------------
(* The Bolt v1 wire format: UTF-8, length-prefixed header maps, request and response frames, with a decoder that   *)
(* is total on byte strings.  Text is a sequence of code points, bytes are a sequence over 0..255, 32-bit fields    *)
(* never leave TLC's integers (the unsigned content length is compared limb-wise).                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Folds, TLC

B256 == 256
Text(s) == s    \* documentation only

(* ---------------------------------------------------------------- integers *)
Pos32(n)  == << n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
I32(n)    == IF n >= 0 THEN Pos32(n) ELSE [i \in 1..4 |-> 255 - Pos32(-(n + 1))[i]]
U16(n)    == << n \div 256, n % 256 >>
I16(n)    == IF n >= 0 THEN U16(n) ELSE [i \in 1..2 |-> 255 - U16(-(n + 1))[i]]
I8(n)     == IF n >= 0 THEN <<n>> ELSE <<n + 256>>

GetU16(b, i) == b[i] * 256 + b[i + 1]
GetI16(b, i) == IF b[i] < 128 THEN GetU16(b, i) ELSE -((255 - b[i]) * 256 + (255 - b[i + 1])) - 1
GetPos32(b, i) == b[i] * 16777216 + b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]   \* only if b[i] < 128
GetI32(b, i) == IF b[i] < 128 THEN GetPos32(b, i)
                ELSE -GetPos32([j \in 1..4 |-> 255 - b[i + j - 1]], 1) - 1
GetI8(b, i) == IF b[i] < 128 THEN b[i] ELSE b[i] - 256

(* ---------------------------------------------------------------- UTF-8 (RFC 3629) *)
Utf8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Ascii(s) == \A i \in 1..Len(s) : s[i] < 128
EncText(s) == IF Ascii(s) THEN s ELSE FoldLeft(LAMBDA acc, c : acc \o Utf8(c), <<>>, s)

U0 == [ok |-> TRUE, need |-> 0, lo |-> 128, hi |-> 191, cp |-> 0, out |-> <<>>]
U8Step(u, b) ==
    IF ~u.ok THEN u
    ELSE IF u.need = 0 THEN
        IF b < 128 THEN [u EXCEPT !.out = Append(@, b)]
        ELSE IF b \in 194..223 THEN [u EXCEPT !.need = 1, !.cp = b - 192, !.lo = 128, !.hi = 191]
        ELSE IF b \in 224..239 THEN [u EXCEPT !.need = 2, !.cp = b - 224, !.lo = IF b = 224 THEN 160 ELSE 128,
                                              !.hi = IF b = 237 THEN 159 ELSE 191]
        ELSE IF b \in 240..244 THEN [u EXCEPT !.need = 3, !.cp = b - 240, !.lo = IF b = 240 THEN 144 ELSE 128,
                                              !.hi = IF b = 244 THEN 143 ELSE 191]
        ELSE [u EXCEPT !.ok = FALSE]
    ELSE IF b < u.lo \/ b > u.hi THEN [u EXCEPT !.ok = FALSE]
    ELSE LET cp == u.cp * 64 + (b - 128) IN
         IF u.need = 1 THEN [u EXCEPT !.need = 0, !.cp = 0, !.lo = 128, !.hi = 191, !.out = Append(@, cp)]
         ELSE [u EXCEPT !.need = @ - 1, !.cp = cp, !.lo = 128, !.hi = 191]
DecText(b) == IF Ascii(b) THEN [ok |-> TRUE, s |-> b] ELSE LET u == FoldLeft(U8Step, U0, b) IN [ok |-> u.ok /\ u.need = 0, s |-> u.out]

(* ---------------------------------------------------------------- header maps *)
(* a map is a sequence of <<key, value>> pairs with distinct keys *)
EncStr(s) == LET b == EncText(s) IN I32(Len(b)) \o b
EncMap(m) == FoldLeft(LAMBDA acc, p : acc \o EncStr(p[1]) \o EncStr(p[2]), <<>>, m)
MapSize(m) == FoldLeft(LAMBDA acc, p : acc + 8 + Len(EncText(p[1])) + Len(EncText(p[2])), 0, m)

NullMark == <<255, 255, 255, 255>>

(* the strings of a byte string: [ok, ss] *)
RECURSIVE DecStrings(_, _)
DecStrings(b, acc) ==
    IF b = <<>> THEN [ok |-> TRUE, ss |-> acc]
    ELSE IF Len(b) < 4 THEN [ok |-> FALSE, ss |-> acc]
    ELSE IF SubSeq(b, 1, 4) = NullMark THEN DecStrings(SubSeq(b, 5, Len(b)), Append(acc, <<>>))
    ELSE IF b[1] >= 128 THEN [ok |-> FALSE, ss |-> acc]                    \* other negative length
    ELSE LET n == GetPos32(b, 1) IN
         IF n > Len(b) - 4 THEN [ok |-> FALSE, ss |-> acc]
         ELSE LET t == DecText(SubSeq(b, 5, 4 + n)) IN
              IF ~t.ok THEN [ok |-> FALSE, ss |-> acc]
              ELSE DecStrings(SubSeq(b, 5 + n, Len(b)), Append(acc, t.s))

(* last value wins for a repeated key *)
PairsToMap(ss) ==
    LET n == Len(ss) \div 2
        keys == {ss[2 * i - 1] : i \in 1..n}
    IN [k \in keys |-> LET js == {j \in 1..n : ss[2 * j - 1] = k}
                           last == CHOOSE j \in js : \A i \in js : i <= j
                       IN ss[2 * last]]
DecMap(b) == LET d == DecStrings(b, <<>>) IN
             IF d.ok /\ Len(d.ss) % 2 = 0 THEN [ok |-> TRUE, m |-> PairsToMap(d.ss), n |-> Len(d.ss) \div 2]
             ELSE [ok |-> FALSE, m |-> PairsToMap(<<>>), n |-> 0]
AsMap(pairs) == [k \in {pairs[i][1] : i \in 1..Len(pairs)} |->
                    (CHOOSE i \in 1..Len(pairs) : pairs[i][1] = k /\ \A j \in 1..Len(pairs) : pairs[j][1] = k => j <= i) ]
FunMap(pairs) == LET ix == AsMap(pairs) IN [k \in DOMAIN ix |-> pairs[ix[k]][2]]

(* ---------------------------------------------------------------- frames *)
PROTOS == {1}
PTYPES == {0, 1, 2}
CMDS   == {0, 1, 2}
VERS   == {1}
CODECS == {1, 2, 11}
STATUSES == 0..9 \cup {16, 17, 18}

\* "com.alipay.sofa.rpc.core.request.SofaRequest" / "com.alipay.sofa.rpc.core.response.SofaResponse"
Prefix == <<99,111,109,46,97,108,105,112,97,121,46,115,111,102,97,46,114,112,99,46,99,111,114,101,46>>
ReqClass  == Prefix \o <<114,101,113,117,101,115,116,46,83,111,102,97,82,101,113,117,101,115,116>>
RespClass == Prefix \o <<114,101,115,112,111,110,115,101,46,83,111,102,97,82,101,115,112,111,110,115,101>>

(* f: [proto, ptype, cmd, ver2, id, codec, x] where x is the timeout of a request, the status of a response *)
FixedLen(kind) == IF kind = "req" THEN 22 ELSE 20
Fixed(kind, f, cl, hl, ctl) ==
    I8(f.proto) \o I8(f.ptype) \o I16(f.cmd) \o I8(f.ver2) \o I32(f.id) \o I8(f.codec)
    \o (IF kind = "req" THEN I32(f.x) ELSE I16(f.x)) \o U16(cl) \o U16(hl) \o I32(ctl)
Frame(kind, f, cls, hdr, content) ==
    Fixed(kind, f, Len(cls), Len(hdr), Len(content)) \o cls \o hdr \o content

Unfix(kind, b) ==
    LET r == IF kind = "req" THEN 0 ELSE -2 IN
    [f |-> [proto |-> GetI8(b, 1), ptype |-> GetI8(b, 2), cmd |-> GetI16(b, 3), ver2 |-> GetI8(b, 5),
            id |-> GetI32(b, 6), codec |-> GetI8(b, 10),
            x |-> IF kind = "req" THEN GetI32(b, 11) ELSE GetI16(b, 11)],
     cl |-> GetU16(b, 15 + r), hl |-> GetU16(b, 17 + r),
     big |-> b[19 + r] >= 128,                        \* a content length of 2^31 or more
     ctl |-> IF b[19 + r] >= 128 THEN 0 ELSE GetPos32(b, 19 + r)]

Known(kind, f) == /\ f.proto \in PROTOS /\ f.ptype \in PTYPES /\ f.cmd \in CMDS /\ f.ver2 \in VERS
                  /\ f.codec \in CODECS /\ (kind = "resp" => f.x \in STATUSES)

Reject == [ok |-> FALSE]
(* the content length must be exactly what is left: comparing avoids sums beyond 2^31 *)
Decode(kind, b) ==
    IF Len(b) < FixedLen(kind) THEN Reject
    ELSE LET u == Unfix(kind, b)
             left == Len(b) - FixedLen(kind) - u.cl - u.hl
         IN IF u.big \/ left < 0 \/ u.ctl # left \/ ~Known(kind, u.f) THEN Reject
            ELSE LET h0 == FixedLen(kind) + u.cl
                     m == DecMap(SubSeq(b, h0 + 1, h0 + u.hl))
                 IN IF ~m.ok THEN Reject
                    ELSE [ok |-> TRUE, f |-> u.f, cls |-> SubSeq(b, FixedLen(kind) + 1, h0), m |-> m.m,
                          content |-> SubSeq(b, h0 + u.hl + 1, Len(b))]

(* is b a serialisation of the package?  (the order of the header entries is free) *)
IsFrame(kind, b, f, cls, pairs, content) ==
    LET hl == MapSize(pairs)
        h0 == FixedLen(kind) + Len(cls)
    IN /\ Len(b) = h0 + hl + Len(content)
       /\ SubSeq(b, 1, FixedLen(kind)) = Fixed(kind, f, Len(cls), hl, Len(content))
       /\ SubSeq(b, FixedLen(kind) + 1, h0) = cls
       /\ LET m == DecMap(SubSeq(b, h0 + 1, h0 + hl)) IN m.ok /\ m.m = FunMap(pairs) /\ m.n = Cardinality(DOMAIN m.m)
       /\ SubSeq(b, h0 + hl + 1, Len(b)) = content
=============================================================================
