----------------------------- MODULE Generators -----------------------------
(***************************************************************************)
(* Generator objects.  An object is made for a family with given           *)
(* parameters (the others take the documented defaults), never changes     *)
(* afterwards, and every draw(n) returns n values nobody has drawn before. *)
(* What may be drawn is abstract here: values are labels <<object, count>>,*)
(* so "fresh" is "the next labels of that object" and "no shared state" is *)
(* "other objects' counters are untouched".  The law of the draws is       *)
(* judged by GeneratorsTrace with the distribution functions of Dists.     *)
(* held[o]: the dictionary the program passed or was given back for object *)
(* o; it belongs to the program, which may write to it.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds, Rows, MaxObjs, DrawSizes, MaxDrawn
VARIABLES objs, drawn, last, held
gvars == <<objs, drawn, last, held>>

Init == objs = <<>> /\ drawn = <<>> /\ last = <<>> /\ held = <<>>
Make(k, r) == /\ Len(objs) < MaxObjs
              /\ objs' = Append(objs, [kind |-> k, row |-> r])
              /\ drawn' = Append(drawn, 0)
              /\ last' = <<>>
              /\ held' = Append(held, r)
Draw(o, n) == /\ drawn[o] + n <= MaxDrawn
              /\ drawn' = [drawn EXCEPT ![o] = @ + n]
              /\ last' = [i \in 1..n |-> <<o, drawn[o] + i>>]
              /\ UNCHANGED <<objs, held>>
\* the program writes other values r into its dictionary
Tamper(o, r) == held' = [held EXCEPT ![o] = r] /\ last' = <<>> /\ UNCHANGED <<objs, drawn>>
Next == \/ \E k \in Kinds, r \in Rows : Make(k, r)
        \/ \E o \in 1..Len(objs), n \in DrawSizes : Draw(o, n)
        \/ \E o \in 1..Len(objs), r \in Rows : Tamper(o, r)
Spec == Init /\ [][Next]_gvars

SizeHonoured == \A i, j \in 1..Len(last) : i # j => last[i] # last[j]
FreshDraws == [][\A o \in 1..Len(objs) : \A i \in 1..Len(last') :
                    last'[i][1] = o => last'[i][2] > drawn[o]]_gvars
ObjectsImmutable == [][\A o \in 1..Len(objs) : objs'[o] = objs[o]]_gvars
=============================================================================
