---------------------------- MODULE GeneratorsGen ----------------------------
(* Sessions with several generator objects: interleaved draws, objects that *)
(* differ only in their parameters or are equal, both ways of making them.  *)
EXTENDS Generators, TLC, Json
CONSTANT Depth
VARIABLE h
Pick(w, S) == RandomElement(IF w = <<>> THEN S ELSE S)
GMake == \E k \in {IF objs # <<>> /\ Pick(h, 1..2) = 1 THEN objs[Len(objs)].kind ELSE Pick(h, Kinds)},
            r \in {Pick(h, Rows)}, via \in {Pick(h, {"class", "registry", "registry-extra"})} :
            Make(k, r) /\ h' = Append(h, [op |-> "make", k |-> k, row |-> r, via |-> via])
GDraw == \E o \in {IF objs = <<>> THEN 0 ELSE Pick(h, 1..Len(objs))}, n \in {Pick(h, DrawSizes)} :
            o > 0 /\ Draw(o, n) /\ h' = Append(h, [op |-> "draw", o |-> o, n |-> n])
GReport == \E o \in {IF objs = <<>> THEN 0 ELSE Pick(h, 1..Len(objs))} :
            o > 0 /\ UNCHANGED gvars /\ h' = Append(h, [op |-> "report", o |-> o])
GTamper == \E o \in {IF objs = <<>> THEN 0 ELSE Pick(h, 1..Len(objs))} :
            o > 0 /\ Tamper(o, 0) /\ h' = Append(h, [op |-> "tamper", o |-> o])
\* a second object whose parameters have the values of the first under exchanged names
GMirror == \E k \in {Pick(h, Kinds)}, via \in {Pick(h, {"class", "registry"})}, r \in {IF objs # <<>> /\ objs[Len(objs)].row = 9 THEN 10 ELSE 9} :
            /\ Make(IF r = 10 THEN objs[Len(objs)].kind ELSE k, r)
            /\ h' = Append(h, [op |-> "make", k |-> IF r = 10 THEN objs[Len(objs)].kind ELSE k, row |-> r, via |-> via])
GSpec == (Init /\ h = <<>>) /\ [][GMake \/ GMirror \/ GDraw \/ GReport \/ GTamper]_<<gvars, h>>
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
