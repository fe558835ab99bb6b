------------------------------ MODULE SpanAbs ------------------------------
(* Spans of one process: a span is a node [pre, n, fam, kf, tr, bag]; its id is pre followed by the number n.  All children *)
(* of a span, and the spans following them, are one family and draw their numbers from that family's counter.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [nodes |-> <<>>, ctr |-> <<>>]       \* nodes: key -> node;  ctr[f]: the next unused number of family f
Put(f, k, v) == (k :> v) @@ f
(* a span which is derived from no other span of this process *)
NewNode(st, s, pre, n, tr, bag) ==
    LET f == Len(st.ctr) IN [nodes |-> Put(st.nodes, s, [pre |-> pre, n |-> n, fam |-> f + 1, kf |-> f + 2, tr |-> tr, bag |-> bag]),
                             ctr |-> st.ctr \o <<n + 1, 1>>]
(* the family a derivation draws its number from, and what the new id begins with *)
Fam(st, kind, p) == IF kind = "child" THEN st.nodes[p].kf ELSE st.nodes[p].fam
Pre(st, kind, p) == IF kind = "child" THEN st.nodes[p].pre \o <<ToString(st.nodes[p].n)>> ELSE st.nodes[p].pre
Draw(st, kind, p) == [n |-> st.ctr[Fam(st, kind, p)], st |-> [st EXCEPT !.ctr[Fam(st, kind, p)] = @ + 1]]
Derived(st, kind, p, s, n) ==
    [nodes |-> Put(st.nodes, s, [pre |-> Pre(st, kind, p), n |-> n, fam |-> Fam(st, kind, p), kf |-> Len(st.ctr) + 1,
                                 tr |-> st.nodes[p].tr, bag |-> st.nodes[p].bag]),
     ctr |-> Append(st.ctr, 1)]
(* what has to be true of every set of spans grown in this way *)
Distinct(st) == \A a, b \in DOMAIN st.nodes : (a # b /\ st.nodes[a].tr = st.nodes[b].tr) => <<st.nodes[a].pre, st.nodes[a].n>> # <<st.nodes[b].pre, st.nodes[b].n>>
==============================================================================
