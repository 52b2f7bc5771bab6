-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Graph statistics.  Two observations are joined when they are closer     *)
(* than r; the quantities are defined over arbitrary vertex sets, and the  *)
(* functions of the sorted sample below them are equal (GraphMC).          *)
(***************************************************************************)
EXTENDS StatCommon

Joined(x, r, i, j) == i # j /\ RAbs(x[i] (-) x[j]) \prec r
V(x) == 1..Len(x)
DegreeOf(x, r, i) == Cardinality({j \in V(x) : Joined(x, r, i, j)})
IsClique(x, r, S) == \A i, j \in S : i # j => Joined(x, r, i, j)
IsIndependent(x, r, S) == \A i, j \in S : ~Joined(x, r, i, j)
RECURSIVE Reach(_, _, _)
Reach(x, r, S) == LET T == S \cup {j \in V(x) : \E i \in S : Joined(x, r, i, j)} IN IF T = S THEN S ELSE Reach(x, r, T)
Largest(S) == CHOOSE k \in S : \A m \in S : m <= k
DefEdges(x, r) == Cardinality({q \in V(x) \X V(x) : q[1] < q[2] /\ Joined(x, r, q[1], q[2])})
DefMaxDegree(x, r) == Largest({DegreeOf(x, r, i) : i \in V(x)})
DefComponents(x, r) == Cardinality({Reach(x, r, {i}) : i \in V(x)})
DefClique(x, r) == Largest({Cardinality(S) : S \in {T \in SUBSET V(x) : IsClique(x, r, T)}})
DefIndependence(x, r) == Largest({Cardinality(S) : S \in {T \in SUBSET V(x) : IsIndependent(x, r, T)}})

(* the same on a sample in increasing order *)
\* how many observations from i on (up to i) are closer than r to observation i, itself included
Ahead(x, r, i) == 1 + Cardinality({j \in (i + 1)..Len(x) : (x[j] (-) x[i]) \prec r})
Behind(x, r, i) == 1 + Cardinality({j \in 1..(i - 1) : (x[i] (-) x[j]) \prec r})
SumI(F(_), k) == LET RECURSIVE Go(_)
                     Go(i) == IF i = 0 THEN 0 ELSE F(i) + Go(i - 1)
                 IN Go(k)
Edges2(x, r) == SumI(LAMBDA i : Ahead(x, r, i) - 1, Len(x))
MaxDegree(x, r) == Largest({Ahead(x, r, i) + Behind(x, r, i) - 2 : i \in V(x)})
Components(x, r) == 1 + Cardinality({i \in 2..Len(x) : ~((x[i] (-) x[i - 1]) \prec r)})
Clique(x, r) == Largest({Ahead(x, r, i) : i \in V(x)})
RECURSIVE Greedy(_, _, _, _)
Greedy(x, r, last, i) == IF i > Len(x) THEN 1 ELSE IF (x[i] (-) x[last]) \prec r THEN Greedy(x, r, last, i + 1) ELSE 1 + Greedy(x, r, i, i + 1)
\* with r = 0 nothing is joined; then even equal observations are independent
Independence(x, r) == Greedy(x, r, 1, 2)

GraphValue(c, x, r) ==
  CASE c = "EDGESNUMBER" -> RInt(Edges2(x, r))
    [] c = "MAXDEGREE" -> RInt(MaxDegree(x, r))
    [] c = "AVGDEGREE" -> RRat(2 * Edges2(x, r), Len(x))
    [] c = "CONNECTEDCOMPONENTS" -> RInt(Components(x, r))
    [] c = "CLIQUENUMBER" -> RInt(Clique(x, r))
    [] c = "INDEPENDENCENUMBER" -> RInt(Independence(x, r))

-----------------------------------------------------------------------------
(* the library's graphs: observations (gamma: null distribution function values) and joining distance *)
Points(d, p, s) == IF d = "gamma" THEN GammaP(p.alpha, s (.) p.beta) ELSE s
Tenth(x) == (x[Len(x)] (-) x[1]) (/) 10
Distance(d, x) ==
  IF d = "gamma" THEN Tenth(x)
  ELSE With(IF d = "normal" THEN Var0(x) ELSE RMean(x), LAMBDA v : IF REq(v, Zero) THEN Tenth(x) ELSE Tenth(x) (/) v)
=============================================================================
