----------------------------- MODULE AtomicGen -----------------------------
(***************************************************************************)
(* Enumerates every small bulk-store scenario of Storage: the content      *)
(* before the batch and the batch itself (with repeated and overlapping    *)
(* keys).  One initial state per scenario, written out as JSON.            *)
(***************************************************************************)
EXTENDS Storage, TLC, Json

VARIABLE sc
AInit == /\ Init
         /\ sc \in [pre : {S \in SUBSET Recs : \A r, s \in S : Key(r) = Key(s) => r = s},
                    batch : Batches]
ANext == FALSE /\ UNCHANGED <<vars, sc>>
ASpec == AInit /\ [][ANext]_<<vars, sc>>

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET r == CHOOSE x \in S : TRUE IN <<r>> \o SetToSeq(S \ {r})
Emit == PrintT("HIST|" \o ToJson([pre |-> SetToSeq(sc.pre), batch |-> sc.batch]))
=============================================================================
