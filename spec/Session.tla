------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A program that evaluates statistics.  It owns samples (a heap of        *)
(* mutable sequences), may overwrite them, makes statistic objects and     *)
(* evaluates objects on samples in any interleaving.                       *)
(*                                                                         *)
(* A statistic's value is a function of its configuration and of the       *)
(* observations, not of the object, the order or container of the sample,  *)
(* or the past; evaluation writes nothing.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Configs,     \* configurations (a class with its arguments)
          Contents,    \* multisets of observations
          Orders, Containers,
          Val(_, _)    \* the value: of a configuration and a content
VARIABLES objs,        \* statistic objects made, by configuration
          heap,        \* samples the program holds: [content, order, container]
          memo         \* values the program has seen: <<configuration, content, value>>
svars == <<objs, heap, memo>>

Init == objs = <<>> /\ heap = <<>> /\ memo = {}
Make(c) == objs' = Append(objs, c) /\ UNCHANGED <<heap, memo>>
Sample(x, o, k) == heap' = Append(heap, [content |-> x, order |-> o, container |-> k]) /\ UNCHANGED <<objs, memo>>
\* the program itself writes to one of its samples
Overwrite(i, x, o) == heap' = [heap EXCEPT ![i].content = x, ![i].order = o] /\ UNCHANGED <<objs, memo>>
Evaluate(o, i) == memo' = memo \cup {<<objs[o], heap[i].content, Val(objs[o], heap[i].content)>>} /\ UNCHANGED <<objs, heap>>
=============================================================================
