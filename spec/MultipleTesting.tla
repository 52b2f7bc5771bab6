--------------------------- MODULE MultipleTesting ---------------------------
(***************************************************************************)
(* Corrections for multiple testing.  An adjustment is specified on the    *)
(* increasingly sorted p-values s: the k-th smallest gets Adj(m, s, k).    *)
(***************************************************************************)
EXTENDS Real64, FiniteSets

Methods == {"bonferroni", "sidak", "sidak_holm", "holm", "by"}
Min1(x) == RMin2(One, x)

Bonf(n, p) == Min1(RInt(n) (.) p)
\* 1 - (1-p)^n, accurate for every p
Sidak(n, p) == IF One \preceq p THEN One ELSE RNeg(RExpm1(RInt(n) (.) RLog1p(RNeg(p))))

\* step-down: running maximum of (n-j+1) p_(j), j <= k
RECURSIVE StepDown(_, _)
StepDown(s, k) == LET v == RInt(Len(s) - k + 1) (.) s[k]
                  IN IF k = 1 THEN v ELSE RMax2(v, StepDown(s, k - 1))
Holm(s, k) == Min1(StepDown(s, k))
\* step-up: running minimum of (n-j+1) p_(j), j >= k (Hochberg)
RECURSIVE StepUp(_, _)
StepUp(s, k) == LET v == RInt(Len(s) - k + 1) (.) s[k]
                IN IF k = Len(s) THEN v ELSE RMin2(v, StepUp(s, k + 1))
Hochberg(s, k) == Min1(StepUp(s, k))

Harmonic(n) == RSum([j \in 1..n |-> RRat(1, j)])
\* step-up: running minimum of n c p_(j) / j, j >= k
RECURSIVE ByUp(_, _, _)
ByUp(s, c, k) == LET v == ((RInt(Len(s)) (.) c) (.) s[k]) (/) RInt(k)
                 IN IF k = Len(s) THEN v ELSE RMin2(v, ByUp(s, c, k + 1))
By(s, k) == Min1(ByUp(s, Harmonic(Len(s)), k))

Adj(m, s, k) == CASE m = "bonferroni" -> Bonf(Len(s), s[k])
                  [] m \in {"sidak", "sidak_holm"} -> Sidak(Len(s), s[k])
                  [] m = "holm" -> Holm(s, k)
                  [] m = "by" -> By(s, k)

Admissible(p) == \A i \in 1..Len(p) : Zero \preceq p[i] /\ p[i] \preceq One
=============================================================================
