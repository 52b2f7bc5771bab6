----------------------------- MODULE DecisionMC -----------------------------
(***************************************************************************)
(* Exhaustive check of the decision rules on all small limit distributions *)
(* (values 0..MaxV, ties included), statistics on the half grid and levels *)
(* k/8.                                                                    *)
(***************************************************************************)
EXTENDS Decision, FiniteSets, TLC
CONSTANTS MaxN, MaxV
VARIABLES lim, alt
vars == <<lim, alt>>
Init == /\ lim \in UNION {[1..n -> 0..MaxV] : n \in 1..MaxN} /\ alt \in Alts
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

L == [i \in 1..Len(lim) |-> RInt(lim[i])]
Ts == {RRat(k, 2) : k \in -1..(2 * MaxV + 1)}
Levels == {RRat(k, 8) : k \in 0..8}
Lo == RSort(L)[1]
Hi == RSort(L)[Len(lim)]

PInUnit == \A t \in Ts : Zero \preceq PValue(alt, L, t) /\ PValue(alt, L, t) \preceq One
\* the left p-value does not decrease with t, the right one does not increase
PMonotone == \A t, u \in Ts : t \preceq u =>
   /\ alt = "left" => PValue(alt, L, t) \preceq PValue(alt, L, u)
   /\ alt = "right" => PValue(alt, L, u) \preceq PValue(alt, L, t)
CvInRange == \A a \in Levels : \A i \in 1..Len(CriticalValues(alt, L, a)) :
   Lo \preceq CriticalValues(alt, L, a)[i] /\ CriticalValues(alt, L, a)[i] \preceq Hi
CvMonotone == \A a, b \in Levels : a \preceq b =>
   LET x == CriticalValues(alt, L, a) y == CriticalValues(alt, L, b) IN
   CASE alt = "left" -> x[1] \preceq y[1]
     [] alt = "right" -> y[1] \preceq x[1]
     [] OTHER -> x[1] \preceq y[1] /\ y[2] \preceq x[2] /\ y[1] \preceq y[2]
\* raising the level never turns a rejection into an acceptance
Nested == \A a, b \in Levels, t \in Ts : a \preceq b =>
   /\ PValue(alt, L, t) \preceq a => PValue(alt, L, t) \preceq b
   /\ Outside(alt, CriticalValues(alt, L, a), t) => Outside(alt, CriticalValues(alt, L, b), t)
\* at most a share a (rounded up in each tail) of the limit distribution lies outside
SizeBound == \A a \in Levels :
   LET out == Cardinality({i \in 1..Len(lim) : Outside(alt, CriticalValues(alt, L, a), L[i])})
   IN RRat(out, Len(lim)) \preceq (a (+) RRat(IF alt = "two_tailed" THEN 2 ELSE 1, Len(lim)))
=============================================================================
