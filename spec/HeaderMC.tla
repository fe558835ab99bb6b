------------------------------ MODULE HeaderMC ------------------------------
(* Design model of header map parsing: every sequence of up to N atoms (length prefixes, strings, fragments of      *)
(* UTF-8) is parsed; parsing is total and accepts exactly the encodings.                                            *)
EXTENDS Codec, Json
CONSTANT N
VARIABLES b, n
Atoms == << <<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,2>>, <<0,0,0,3>>, <<0,0,0,4>>, NullMark, <<255,255,255,254>>, <<128,0,0,0>>,
            <<127,255,255,255>>, <<0,0,1,0>>, <<0>>, <<97>>, <<195,169>>, <<195>>, <<169>>, <<237,160,128>>, <<192,128>>,
            <<240,159,152,128>>, <<244,144,128,128>>, <<226,130,172>> >>
Init == b = <<>> /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E i \in 1..Len(Atoms) : b' = b \o Atoms[i]
Spec == Init /\ [][Next]_<<b, n>>
(* re-encoding what was accepted gives the same bytes up to null markers, so nothing is invented or dropped *)
RECURSIVE Sum(_)
Sum(ss) == IF ss = <<>> THEN <<>> ELSE EncStr(Head(ss)) \o Sum(Tail(ss))
RECURSIVE NoNull(_)
NoNull(x) == IF x = <<>> THEN <<>>
             ELSE IF SubSeq(x, 1, 4) = NullMark THEN <<0,0,0,0>> \o NoNull(SubSeq(x, 5, Len(x)))
             ELSE LET k == 4 + GetPos32(x, 1) IN SubSeq(x, 1, k) \o NoNull(SubSeq(x, k + 1, Len(x)))
Faithful == LET d == DecStrings(b, <<>>) IN d.ok => Sum(d.ss) = NoNull(b)
Emit == PrintT(ToJson(<<"HDR", b>>))
Inv == Faithful /\ Emit
View == b
=============================================================================
