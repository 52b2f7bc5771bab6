-------------------------------- MODULE EdfMC --------------------------------
(***************************************************************************)
(* The order-statistic formulas of the EDF statistics against their        *)
(* definitions as distances between the empirical distribution function    *)
(* and the null, on every sample whose null distribution values lie on a   *)
(* grid.  Observations arrive one by one, in any order.                    *)
(***************************************************************************)
EXTENDS StatCommon
CONSTANTS G, MaxN   \* grid 1/G, ..., (G-1)/G; largest sample
VARIABLES s         \* the values seen so far, as multiples of 1/G, in increasing order
vars == <<s>>

Insert(q, v) == SortSeq(q \o <<v>>, LAMBDA a, b : a < b)
Init == s = <<>>
Observe == Len(s) < MaxN /\ \E v \in 1..(G - 1) : s' = Insert(s, v)
Spec == Init /\ [][Observe]_vars

n == Len(s)
Us(q) == [i \in 1..Len(q) |-> RRat(q[i], G)]
\* the empirical distribution function and its left limit at v/G
F(q, v) == RRat(Cardinality({i \in 1..Len(q) : q[i] <= v}), Len(q))
FL(q, v) == RRat(Cardinality({i \in 1..Len(q) : q[i] < v}), Len(q))
SetMax(S) == CHOOSE x \in S : \A y \in S : y \preceq x
\* sup over x of F_n - F and of F - F_n: attained at a value of the sample, from the right or from the left
SupPlus(q) == SetMax({Zero} \cup {F(q, v) (-) RRat(v, G) : v \in 1..(G - 1)})
SupMinus(q) == SetMax({Zero} \cup {RRat(v, G) (-) FL(q, v) : v \in 1..(G - 1)})
\* integral over [0, 1] of a function with antiderivative A(c, x) on the cells where F_n = c
Integral(q, A(_, _)) == RSum([v \in 1..G |-> With(IF v = 1 THEN Zero ELSE F(q, v - 1), LAMBDA c : A(c, RRat(v, G)) (-) A(c, RRat(v - 1, G)))])
IntSq(q) == Integral(q, LAMBDA c, x : PowI(x (-) c, 3) (/) 3)
IntDiff(q) == Integral(q, LAMBDA c, x : (c (.) x) (-) (Pw(x, 2) (/) 2))
IntAD(q) == Integral(q, LAMBDA c, x :
  ((IF REq(c, Zero) THEN Zero ELSE Pw(c, 2) (.) RLog(x)) (-) x)
  (-) (IF REq(c, One) THEN Zero ELSE Pw(One (-) c, 2) (.) RLog(One (-) x)))

Same(a, b) == RAbs(a (-) b) \preceq D("1e-12") \/ Close(a, b)
Mirror(q) == [i \in 1..Len(q) |-> G - q[Len(q) + 1 - i]]
Rotate(q, k) == SortSeq([i \in 1..Len(q) |-> (q[i] + k) % G], LAMBDA a, b : a < b)

\* one-sided suprema are 0 when never positive; the order-statistic maxima then are <= 0 only on the other side
Suprema == n > 0 => \A u \in {TLCEval(Us(s))} :
  /\ Same(KS("two", u), RMax2(SupPlus(s), SupMinus(s)))
  /\ Same(RMax2(Zero, KS("right", u)), SupPlus(s)) /\ Same(RMax2(Zero, KS("left", u)), SupMinus(s))
  /\ Same(Kuiper(u), SupPlus(s) (+) SupMinus(s))
  /\ RRat(1, 2 * n) \preceq KS("two", u)
  /\ Same(RMaxOf(Worst(u)), KS("two", u))
Integrals == n > 0 => \A u \in {TLCEval(Us(s))} :
  /\ Same(CvM(u), IntSq(s) (.) n)
  /\ Same(Watson(u), (IntSq(s) (-) Pw(IntDiff(s), 2)) (.) n)
  /\ Same(ADu(u), IntAD(s) (.) n)
\* replacing F by its survival function (x -> -x) swaps the one-sided statistics and keeps the others
Reflection == n > 0 => \A u \in {TLCEval(Us(s))} : \A w \in {TLCEval(Us(Mirror(s)))} :
  /\ Same(KS("right", u), KS("left", w)) /\ Same(Kuiper(u), Kuiper(w)) /\ Same(CvM(u), CvM(w)) /\ Same(Watson(u), Watson(w))
  /\ Same(ADu(u), ADu(w)) /\ Same(ZhangK(u), ZhangK(w)) /\ Same(ZhangA(u), ZhangA(w)) /\ Same(ZhangC(u), ZhangC(w))
  /\ Same(MinToshiyuki(u), MinToshiyuki(w))
\* Kuiper and Watson statistics live on the circle
Rotation == n > 0 => \A k \in 1..(G - 1) : (\A i \in 1..n : (s[i] + k) % G # 0) =>
  \A u \in {TLCEval(Us(s))} : \A w \in {TLCEval(Us(Rotate(s, k)))} : Same(Kuiper(u), Kuiper(w)) /\ Same(Watson(u), Watson(w))
\* Zhang's statistics are likelihood ratios: never negative, and Z_A at least its minimum
ZhangSigns == n > 0 => \A u \in {TLCEval(Us(s))} : Zero \preceq ZhangC(u) /\ Zero \prec ZhangA(u) /\ Zero \prec ADu(u)
=============================================================================
