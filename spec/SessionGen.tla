------------------------------ MODULE SessionGen ------------------------------
(* Sessions: few objects and samples, evaluated over and over, with twins (objects of one configuration),   *)
(* reordered copies and overwritten samples.                                                                 *)
EXTENDS Session, TLC, Json
CONSTANT Depth
VARIABLE h
V2(c, x) == <<c, x>>
Pick(w, S) == RandomElement(IF w = <<>> THEN S ELSE S)
GMake == /\ Len(objs) < 6
         /\ \E c \in {Pick(h, Configs)} : Make(c) /\ h' = Append(h, [op |-> "make", c |-> c])
GSample == /\ Len(heap) < 8
           /\ \E x \in {Pick(h, Contents)}, o \in {Pick(h, Orders)}, k \in {Pick(h, Containers)} :
                Sample(x, o, k) /\ h' = Append(h, [op |-> "sample", x |-> x, o |-> o, k |-> k])
GOver == \E i \in {IF heap = <<>> THEN 0 ELSE Pick(h, 1..Len(heap))}, x \in {Pick(h, Contents)}, o \in {Pick(h, Orders)} :
           /\ i > 0 /\ heap[i].container \notin {"tuple", "readonly"}
           /\ Overwrite(i, x, o) /\ h' = Append(h, [op |-> "over", i |-> i, x |-> x, o |-> o])
GEval == \E o \in {IF objs = <<>> THEN 0 ELSE Pick(h, 1..Len(objs))}, i \in {IF heap = <<>> THEN 0 ELSE Pick(h, 1..Len(heap))}, w \in {Pick(h, 1..3)} :
           /\ o > 0 /\ i > 0
           /\ Evaluate(o, i) /\ h' = Append(h, [op |-> "eval", o |-> o, i |-> i])
GSpec == (Init /\ h = <<>>) /\ [][GMake \/ GSample \/ GEval \/ GEval \/ GEval \/ GEval \/ GOver]_<<svars, h>>
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
