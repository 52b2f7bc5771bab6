----------------------------- MODULE AvailGen -----------------------------
(* Random behaviours of Avail for replay into the real code. *)
EXTENDS Avail, TLC, Json
VARIABLE h
Log(op, t, v) == h' = Append(h, [op |-> op, t |-> t, v |-> v])
T(w) == RandomElement(IF w = <<>> THEN Targets ELSE Targets \ {})
G(w) == RandomElement(IF w = <<>> THEN Good ELSE Good \ {})
GInit == Init /\ h = <<>>
GNext == \/ \E t \in {T(h)} : CreateSafe(t) /\ Log("create", t, 0)
         \/ \E t \in {G(h)} : CreateSafe(t) /\ Log("create", t, 0)
         \/ \E t \in {T(h)} : InitCall(t) /\ Log("init", t, 0)
         \/ \E t \in {G(h)} : InitCall(t) /\ Log("init", t, 0)
         \/ \E t \in {G(h)} : Break(t) /\ t # "memory" /\ Log("break", t, RandomElement({1, 2, 3}))
         \/ \E t \in broken : Repair(t) /\ Log("repair", t, 0)
         \/ \E t \in open, v \in {RandomElement(Vals)} : Put(t, v) /\ Log("put", t, v)
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == n = MaxSteps => PrintT("HIST|" \o ToJson(h))
=============================================================================
