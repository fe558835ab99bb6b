-------------------------------- MODULE Ids --------------------------------
(* Request ids and trace ids, by any number of threads.  Request ids count through 0..Mod-1 and start anywhere; a trace id  *)
(* is made of the millisecond and of a number which cycles through Cycle values.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Mod, Cycle, PerTick, Ticks, NDraws, Defect
VARIABLES pc, val, ctr, recent, tick, drawn, seq, traces, n, wrong
vars == <<pc, val, ctr, recent, tick, drawn, seq, traces, n, wrong>>
Init == /\ pc = [p \in Procs |-> "idle"] /\ val = [p \in Procs |-> 0] /\ ctr \in 0..Mod - 1 /\ recent = <<>>
        /\ tick = 0 /\ drawn = 0 /\ seq \in 0..Cycle - 1 /\ traces = {} /\ n = 0 /\ wrong = {}
Keep(q, x) == IF Len(q) < Mod - 1 THEN Append(q, x) ELSE Append(Tail(q), x)
Give(x) == /\ recent' = Keep(recent, x) /\ n' = n + 1
           /\ wrong' = wrong \cup (IF \E i \in 1..Len(recent) : recent[i] = x THEN {"repeated"} ELSE {})
                             \cup (IF x \notin 0..Mod - 1 THEN {"range"} ELSE {})
                             \cup (IF recent # <<>> /\ x # (recent[Len(recent)] + 1) % Mod THEN {"skipped"} ELSE {})
Succ(x) == IF Defect = "wrapToOne" THEN IF x + 1 >= Mod THEN 1 ELSE x + 1
           ELSE IF Defect = "wide" THEN (x + 1) % (Mod + 1) ELSE (x + 1) % Mod
Draw(p) == /\ pc[p] = "idle" /\ n < NDraws
           /\ IF Defect = "split" THEN val' = [val EXCEPT ![p] = ctr] /\ pc' = [pc EXCEPT ![p] = "bump"] /\ UNCHANGED <<ctr, recent, n, wrong>>
              ELSE Give(ctr) /\ ctr' = Succ(ctr) /\ UNCHANGED <<pc, val>>
           /\ UNCHANGED <<tick, drawn, seq, traces>>
Bump(p) == pc[p] = "bump" /\ ctr' = Succ(val[p]) /\ pc' = [pc EXCEPT ![p] = "idle"] /\ Give(val[p]) /\ UNCHANGED <<val, tick, drawn, seq, traces>>
Fresh(p) == /\ pc[p] = "idle" /\ drawn < PerTick /\ drawn' = drawn + 1 /\ seq' = (seq + 1) % Cycle
            /\ wrong' = wrong \cup (IF <<tick, seq>> \in traces THEN {"trace"} ELSE {}) /\ traces' = traces \cup {<<tick, seq>>}
            /\ UNCHANGED <<pc, val, ctr, recent, tick, n>>
Tick == tick < Ticks /\ tick' = tick + 1 /\ drawn' = 0 /\ UNCHANGED <<pc, val, ctr, recent, seq, traces, n, wrong>>
Next == Tick \/ \E p \in Procs : Draw(p) \/ Bump(p) \/ Fresh(p)
Spec == Init /\ [][Next]_vars
Right == wrong = {}
==============================================================================
