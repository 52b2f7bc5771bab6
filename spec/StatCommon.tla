----------------------------- MODULE StatCommon -----------------------------
(***************************************************************************)
(* What the statistics of all families share.  s is a sample in increasing *)
(* order (a sequence of reals), u the null distribution function at s.     *)
(***************************************************************************)
EXTENDS Real64, TLC, FiniteSets

D(t) == RDec(t)
RN(s) == RInt(Len(s))
Iota0(n) == RIota(n) (-) 1
At(s, i) == s[i]
Const(n, c) == [i \in 1..n |-> c]
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
\* rounding of a quotient to the nearest integer, halves to even
RoundHalfEven(a, b) == LET q == a \div b r == 2 * (a % b) IN IF r < b THEN q ELSE IF r > b THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1

Pw(v, k) == RPow(v, k)
Centered(s) == s (-) RMean(s)
SumSq(v) == RSum(Pw(v, 2))
SS(s) == SumSq(Centered(s))
Var0(s) == SS(s) (/) Len(s)
Var1(s) == SS(s) (/) (Len(s) - 1)
Mom(s, k) == RMean(Pw(Centered(s), k))
Skewness(s) == Mom(s, 3) (/) RPow(Mom(s, 2), D("1.5"))
Kurtosis(s) == Mom(s, 4) (/) Pw(Mom(s, 2), 2)
Studentised(s) == Centered(s) (/) RSqrt(Var1(s))
Median(s) == LET n == Len(s) IN IF n % 2 = 1 THEN s[n \div 2 + 1] ELSE (s[n \div 2] (+) s[n \div 2 + 1]) (/) 2
MeanAbs(v) == RMean(RAbs(v))
Corr(a, b) == With(Centered(a), LAMBDA x : With(Centered(b), LAMBDA y : RDot(x, y) (/) RSqrt(SumSq(x) (.) SumSq(y))))
NormPdf(x) == RExp(Pw(x, 2) (/) (-2)) (/) RSqrt(Two (.) Pi)
RECURSIVE Horner(_, _, _)
Horner(c, x, acc) == IF c = <<>> THEN acc ELSE Horner(Tail(c), x, (acc (.) x) (+) D(Head(c)))
\* polynomial with the coefficients c (decimal texts, highest power first) at x
Poly(c, x) == Horner(c, x, Zero)
\* binomial coefficients (v over k) for a vector v of natural numbers
RECURSIVE VBin(_, _)
VBin(v, k) == IF k = 0 THEN Pw(v, 0) ELSE (VBin(v, k - 1) (.) (v (-) (k - 1))) (/) k
RBin(n, k) == VBin(RInt(n), k)
RECURSIVE BinI(_, _)
BinI(n, k) == IF k = 0 THEN 1 ELSE (BinI(n, k - 1) * (n - k + 1)) \div k

-----------------------------------------------------------------------------
(* EDF statistics *)
DPlus(u) == RMaxOf((RIota(Len(u)) (/) Len(u)) (-) u)
DMinus(u) == RMaxOf(u (-) (Iota0(Len(u)) (/) Len(u)))
KS(alt, u) == IF alt = "right" THEN DPlus(u) ELSE IF alt = "left" THEN DMinus(u) ELSE RMax2(DPlus(u), DMinus(u))
Kuiper(u) == DPlus(u) (+) DMinus(u)
Odd(n) == (RIota(n) (.) 2) (-) 1
CvM(u) == LET n == Len(u) IN RRat(1, 12 * n) (+) RSum(Pw((Odd(n) (/) (2 * n)) (-) u, 2))
Watson(u) == CvM(u) (-) (RN(u) (.) Pw(RMean(u) (-) Half, 2))
\* lF, lS: logarithms of the distribution and survival function at the sample
AD(lF, lS) == LET n == Len(lF) IN RInt(-n) (-) (RDot(Odd(n), lF (+) RRev(lS)) (/) n)
ADu(u) == AD(RLog(u), RLog(One (-) u))
Worst(u) == LET n == Len(u) IN [i \in 1..n |-> RMax2(RRat(i, n) (-) u[i], u[i] (-) RRat(i - 1, n))]
MinToshiyuki(u) == RSum(Worst(u) (/) RSqrt(u (.) (One (-) u))) (/) RSqrt(RN(u))
\* power divergence of observed and expected counts
PowerDivergence(o, e, lam) ==
  IF REq(lam, One) THEN RSum(Pw(o (-) e, 2) (/) e)
  ELSE IF REq(lam, Zero) THEN Two (.) RSum([i \in 1..Len(o) |-> IF REq(o[i], Zero) THEN Zero ELSE o[i] (.) RLog(o[i] (/) e[i])])
  ELSE IF REq(lam, RInt(-1)) THEN Two (.) RSum(e (.) RLog(e (/) o))
  ELSE RSum(o (.) (RPow(o (/) e, lam) (-) 1)) (/) (Half (.) (lam (.) (lam (+) 1)))
\* how many elements of s each of the bins [e_1, e_2), ..., [e_k-1, e_k] holds (numpy.histogram)
Histogram(s, e) == LET k == Len(e) IN
  [b \in 1..(k - 1) |-> RInt(Cardinality({i \in 1..Len(s) : e[b] \preceq s[i] /\ (s[i] \prec e[b + 1] \/ (b = k - 1 /\ REq(s[i], e[k])))}))]
\* k + 1 equally spaced edges from a to b
Edges(a, b, k) == [j \in 1..(k + 1) |-> IF j = k + 1 THEN b ELSE a (+) (RInt(j - 1) (.) ((b (-) a) (/) k))]

(* Zhang's statistics *)
ZhangK(u) == LET n == Len(u) i == RIota(n) IN
  RMaxOf(((i (-) Half) (.) RLog((i (-) Half) (/) (u (.) n)))
         (+) (((RInt(n) (-) i) (+) Half) (.) RLog(((RInt(n) (-) i) (+) Half) (/) ((One (-) u) (.) n))))
ZhangA(u) == LET n == Len(u) i == RIota(n) IN
  RNeg(RSum((RLog(u) (/) ((RInt(n) (-) i) (+) Half)) (+) (RLog(One (-) u) (/) (i (-) Half))))
ZhangC(u) == LET n == Len(u) i == RIota(n) IN
  RSum(Pw(RLog(((One (/) u) (-) 1) (/) (((RInt(n) (-) Half) (/) (i (-) D("0.75"))) (-) 1)), 2))
=============================================================================
