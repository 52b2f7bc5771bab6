------------------------------- MODULE GraphMC -------------------------------
(* Observations arrive one by one; after each, the graph quantities of the sorted sample are the defined ones. *)
EXTENDS Graph
CONSTANTS G, MaxN, Radii     \* Radii: joining distances, in halves
VARIABLES s
vars == <<s>>
Insert(q, v) == SortSeq(q \o <<v>>, LAMBDA a, b : a < b)
Init == s = <<>>
Observe == Len(s) < MaxN /\ \E v \in 0..G : s' = Insert(s, v)
Spec == Init /\ [][Observe]_vars

Xs == [i \in 1..Len(s) |-> RInt(s[i])]
Defined(x, r) ==
  /\ Edges2(x, r) = DefEdges(x, r) /\ MaxDegree(x, r) = DefMaxDegree(x, r) /\ Components(x, r) = DefComponents(x, r)
  /\ Clique(x, r) = DefClique(x, r) /\ Independence(x, r) = DefIndependence(x, r)
Consistent(x, r) ==      \* textbook inequalities of unit interval graphs
  /\ SumI(LAMBDA i : DegreeOf(x, r, i), Len(x)) = 2 * Edges2(x, r)
  /\ Clique(x, r) <= MaxDegree(x, r) + 1 /\ Components(x, r) <= Independence(x, r)
  /\ Clique(x, r) * Independence(x, r) >= Len(x)
Equal == Len(s) > 0 => \A x \in {TLCEval(Xs)} : \A k \in Radii : \A r \in {TLCEval(RRat(k, 2))} : Defined(x, r) /\ Consistent(x, r)
=============================================================================
