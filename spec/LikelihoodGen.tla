---------------------------- MODULE LikelihoodGen ----------------------------
(* Every small sample of whole numbers, for the families that are judged exactly on it. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Top
VARIABLES done
Vals == (0 - 1)..Top
Samples == UNION {[1..n -> Vals] : n \in 1..MaxLen}
Emit == ~done /\ done' = TRUE /\ \A s \in Samples : PrintT("HIST|" \o ToJson([x |-> s]))
Spec == done = FALSE /\ [][Emit]_done
=============================================================================
