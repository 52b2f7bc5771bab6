------------------------------ MODULE StatDefsMC ------------------------------
(***************************************************************************)
(* The formulas of the statistics modules against the definitions they     *)
(* stand for (averages over subsets, pairs and triples, least squares,     *)
(* integrals), on every sample of small integers.                          *)
(***************************************************************************)
EXTENDS StatCommon
CONSTANTS G, MinN, MaxN
N == INSTANCE NormalStats
E == INSTANCE ExponentialStats
W == INSTANCE WeibullStats
B == INSTANCE BoundedStats
VARIABLES s         \* positive integers in increasing order
vars == <<s>>

Insert(q, v) == SortSeq(q \o <<v>>, LAMBDA a, b : a < b)
Init == s = <<>>
Observe == Len(s) < MaxN /\ \E v \in 1..G : s' = Insert(s, v)
Spec == Init /\ [][Observe]_vars

n == Len(s)
X == [i \in 1..n |-> RInt(s[i])]
Ready == n >= MinN
Spread == s[1] # s[n]       \* not all observations equal
Same(a, b) == RAbs(a (-) b) \preceq D("1e-9") \/ CloseTol(a, b, D("1e-8"))
Subsets(k) == {T \in SUBSET (1..n) : Cardinality(T) = k}
\* the j-th smallest index of a set (the sample is in increasing order)
Nth(T, j) == CHOOSE i \in T : Cardinality({h \in T : h <= i}) = j

\* E of the j-th of k observations drawn without replacement, averaged over all subsets
ExpectedOrder(x, j, k) == RRat(
  LET S == Subsets(k)
      RECURSIVE Go(_, _)
      Go(R, acc) == IF R = {} THEN acc ELSE LET T == CHOOSE y \in R : TRUE IN Go(R \ {T}, acc + s[Nth(T, j)])
  IN Go(S, 0), Cardinality(Subsets(k)))
\* trimmed L-moment of order r: mean over subsets of size r + 2 t of differences of order statistics
LMomentDef(r, t) == RSum([k \in 1..r |-> ExpectedOrder(X, r + t - (k - 1), r + 2 * t) (.) (IF k % 2 = 1 THEN BinI(r - 1, k - 1) ELSE -BinI(r - 1, k - 1))]) (/) r
LMoments == Ready /\ Spread => \A x \in {TLCEval(X)} : \A r \in 2..4 : \A t \in 0..3 :
  r + 2 * t <= n => Same(N!LMom(x, r, t), LMomentDef(r, t))

\* mean absolute difference of pairs over twice the mean
RECURSIVE PairSum(_, _, _)
PairSum(F(_, _), i, j) == IF i > n THEN 0 ELSE IF j > n THEN PairSum(F, i + 1, i + 2) ELSE F(s[i], s[j]) + PairSum(F, i, j + 1)
Abs(a) == IF a < 0 THEN -a ELSE a
GiniDef == Ready => \A x \in {TLCEval(X)} : Same(E!Gini(x), (RRat(PairSum(LAMBDA a, b : Abs(a - b), 1, 2), 1) (/) (RBin(n, 2) (.) 2)) (/) RMean(x))

\* Rossberg: triples' middle minus minimum against pairs' minimum
RossbergDef == Ready => LET tr == Subsets(3) pr == Subsets(2)
   h == Cardinality({<<T, m>> \in tr \X (1..n) : s[Nth(T, 2)] - s[Nth(T, 1)] < s[m]})
   g == Cardinality({<<T, m>> \in pr \X (1..n) : s[Nth(T, 1)] < s[m]})
 IN \A x \in {TLCEval(X)} : Same(E!Rossberg(x), ((RInt(h) (/) RBin(n, 3)) (-) (RInt(g) (/) RBin(n, 2))) (/) n)

\* Stein U-statistic on the unit interval
SteinDef == Ready => \A u \in {TLCEval([i \in 1..n |-> RRat(s[i], G + 1)])} :
  Same(B!SteinU(u), (RSum([i \in 1..n |-> RSum([j \in 1..n |-> IF i < j THEN
        (((RMax2(u[i], u[j]) (-) u[i]) (-) u[j]) (+) ((Sq(u[i]) (+) Sq(u[j])) (/) 2)) ELSE Zero])])) (/) RBin(n, 2))

\* weights of the regression statistics: contrasts of unit length
Antisymmetric(a) == \A i \in 1..Len(a) : Same(a[i], RNeg(a[Len(a) + 1 - i]))
WeightsDef == Ready => \A a \in {TLCEval(N!SWWeights(n))} :
  /\ Same(SumSq(a), One) /\ Antisymmetric(a)
  /\ \A u \in {TLCEval(N!Blom(n, N!C38))} : Antisymmetric(u) /\ Same(RSum(N!ZQa(n, u)), Zero)
\* Coin: the cubic coefficient of the least-squares fit z = b1 a + b3 a^3 (odd functions, no constant term)
CoinDef == Ready /\ Spread => \A a \in {TLCEval(LET h == n \div 2 sp == [i \in 1..h |-> N!OrderScore(i, n)] IN
                                 RNeg(sp) \o (IF n % 2 = 1 THEN <<Zero>> ELSE <<>>) \o RRev(sp))} :
   \A x \in {TLCEval(X)} : \A z \in {TLCEval(Studentised(x))} : \A b3 \in {TLCEval(RSqrt(N!Coin(x)))} :
     \* residual orthogonal to a for the best b1, and to a^3 for one of the two signs
     LET b1(b) == (RDot(a, z) (-) (b (.) RSum(Pw(a, 4)))) (/) SumSq(a)
         res(b) == RDot(Pw(a, 3), (z (-) (a (.) b1(b))) (-) (Pw(a, 3) (.) b))
     IN Same(res(b3), Zero) \/ Same(res(RNeg(b3)), Zero)

\* Epps and Pulley: n times the squared distance of the empirical characteristic function of the (maximum-
\* likelihood) studentised sample from that of the normal law, weighted by the normal density
EmpCf2(z, t) == Sq(RMean(RCos(z (.) t)) (-) RExp(Sq(t) (/) (-2))) (+) Sq(RMean(RSin(z (.) t)))
EppsDef == Ready /\ Spread => \A x \in {TLCEval(X)} : \A z \in {TLCEval(Centered(x) (/) RSqrt(Var0(x)))} :
  \* trapezoidal rule on [-9, 9], spectrally accurate
  LET h == RRat(1, 8) m == 72 IN
  Same(N!EppsPulleyN(x), RN(x) (.) (RSum([j \in 1..(2 * m + 1) |-> With(RInt(j - 1 - m) (.) h, LAMBDA t : EmpCf2(z, t) (.) NormPdf(t))]) (.) h))

\* symmetric statistics do not see the direction of the axis, the others change sign or sides
Mirror == RRev(RNeg(X) (+) (G + 1))
Symmetric == {"SW", "SF", "FILLI", "LG", "CS", "COIN", "D", "JB", "KURTOSIS", "RJB", "BS", "GMG", "MI", "DLDMZEPD", "SH", "EP", "BM1", "BM2"}
NOpt == [alt |-> "two", weighted |-> FALSE, cte |-> "3/8"]
P0 == [mean |-> Zero, var |-> One]
MirrorLaw == Ready /\ Spread => \A x \in {TLCEval(X)} : \A y \in {TLCEval(Mirror)} :
  \A c \in Symmetric : LET a == N!NormalStat(c, P0, NOpt, x) b == N!NormalStat(c, P0, NOpt, y) IN RIsNaN(a) \/ Same(a, b)
=============================================================================
