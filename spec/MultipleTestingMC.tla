-------------------------- MODULE MultipleTestingMC --------------------------
(* Every sorted list of up to MaxN p-values from the grid k/Grid. *)
EXTENDS MultipleTesting, TLC
CONSTANTS MaxN, Grid
VARIABLE ks
Sorted(f) == \A i, j \in DOMAIN f : i < j => f[i] <= f[j]
Init == ks \in {f \in UNION {[1..n -> 0..Grid] : n \in 1..MaxN} : Sorted(f)}
Next == FALSE /\ UNCHANGED ks
Spec == Init /\ [][Next]_ks
S == [i \in 1..Len(ks) |-> RRat(ks[i], Grid)]
N == Len(ks)
Eps == RDec("1e-12")
Le(a, b) == a \preceq (b (+) Eps)
InUnit == \A m \in Methods, k \in 1..N : Zero \preceq Adj(m, S, k) /\ Adj(m, S, k) \preceq One
NotBelowRaw == \A m \in Methods, k \in 1..N : Le(S[k], Adj(m, S, k))
Monotone == \A m \in Methods, k \in 1..(N - 1) : Le(Adj(m, S, k), Adj(m, S, k + 1))
TiesEqual == \A m \in Methods, k \in 1..(N - 1) : ks[k] = ks[k + 1] => CloseTol(Adj(m, S, k), Adj(m, S, k + 1), Eps)
\* Holm is never more conservative than Bonferroni, Hochberg never than Holm, Sidak never than Bonferroni
Order == \A k \in 1..N : /\ Le(Adj("holm", S, k), Adj("bonferroni", S, k))
                         /\ Le(Hochberg(S, k), Adj("holm", S, k))
                         /\ Le(Adj("sidak", S, k), Adj("bonferroni", S, k))
Single == N = 1 => \A m \in Methods : CloseTol(Adj(m, S, 1), S[1], Eps)
=============================================================================
