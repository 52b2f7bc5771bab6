---------------------------- MODULE RegistryGen ----------------------------
(* What one process imports and asks, in random order, ending with every query. *)
EXTENDS Registry, TLC, Json
CONSTANT Depth
VARIABLE h
Pick(w, S) == RandomElement(IF w = <<>> THEN S ELSE S)
GImport == \E m \in {Pick(h, Modules)} : Import(m) /\ h' = Append(h, [op |-> "import", m |-> m])
GAsk == \E k \in {Pick(h, Queries)}, d \in {Pick(h, Families)} : Ask(<<k, d>>) /\ h' = Append(h, [op |-> k, d |-> d])
\* a family that was asked about, or any
Some == LET F == {h[i].d : i \in {j \in 1..Len(h) : "d" \in DOMAIN h[j]}} IN IF F # {} /\ Pick(h, 1..3) # 1 THEN Pick(h, F) ELSE Pick(h, Families)
GAgain == \E k \in {Pick(h, Queries)}, d \in {Some} : Ask(<<k, d>>) /\ h' = Append(h, [op |-> k, d |-> d])
GDefine == \E d \in {Some}, how \in {Pick(h, {"direct", "indirect", "abstract"})} :
             /\ Define(d, "USER" \o ToString(Len(h))) /\ h' = Append(h, [op |-> "define", d |-> d, how |-> how, c |-> "USER" \o ToString(Len(h))])
GSpoil == h # <<>> /\ Spoil /\ h' = Append(h, [op |-> "spoil"])
GSpec == (Init /\ h = <<>>) /\ [][GImport \/ GAsk \/ GAgain \/ GAgain \/ GDefine \/ GSpoil]_<<rvars, h>>
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
