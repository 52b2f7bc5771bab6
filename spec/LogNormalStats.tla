--------------------------- MODULE LogNormalStats ---------------------------
(***************************************************************************)
(* The log-normality statistics.  p: null parameters [s, scale]; x: the    *)
(* sample in increasing order.  All but five are the normality statistic   *)
(* of the same code at the standardised logarithms.                        *)
(***************************************************************************)
EXTENDS NormalStats

Std01 == [mean |-> Zero, var |-> One]
LogStd(p, x) == (RLog(x) (-) RLog(p.scale)) (/) p.s
LU(p, x) == PhiCdf(LogStd(p, x))

(* Kullback-Leibler tests: ratio of the divergence D_n(r) between the r-th power of the sample and the
   log-normal family to its standard deviation sigma(r) *)
KlTable(x) == With(RLog(x), LAMBDA y : y (/) RSqrt(Var0(y)))
\* D_n(r) for r # 0, L = table of standardised logs
KlD(L, r) == With(RExp(L (.) r), LAMBDA e :
  ((Two (.) RLog(RMean(e))) (-) (r (.) RMean(L))) (-) ((r (.) RDot(e, L)) (/) RSum(e)))
\* sigma(r)^2 = exp(x)(x^2 - 3x + 4) - 4 - x at x = r^2, by its series near 0 (where the closed form loses all digits)
RECURSIVE KlSeries(_, _, _)
\* sum over k >= 3 of x^k (1/(k-2)! - 3/(k-1)! + 4/k!)
KlSeries(x, k, f) ==       \* f = x^k / k!
  IF k > 25 THEN Zero ELSE (f (.) RInt(k * (k - 1) - 3 * k + 4)) (+) KlSeries(x, k + 1, (f (.) x) (/) (k + 1))
KlVar(r) == With(Sq(r), LAMBDA x :
  IF x \prec One THEN KlSeries(x, 3, Cube(x) (/) 6)
  ELSE (RExp(x) (.) (((x (-) 3) (.) x) (+) 4)) (-) (x (+) 4))
KlRatio(L, r) == KlD(L, r) (/) RSqrt(KlVar(r))
KlGrid(j) == RSub(RMul(RDiv(RInt(10), RInt(999)), RInt(j - 1)), RInt(5))
\* the largest ratio over the grid points at least eps away from 0
KlSup(x, eps) == With(KlTable(x), LAMBDA L :
  RSqrt(RN(x)) (.) RMaxOf([j \in 1..1000 |-> With(KlGrid(j), LAMBDA r : IF RAbs(r) \prec eps THEN Zero ELSE RAbs(KlRatio(L, r)))]))
\* composite Simpson rule with 2 k intervals on [a, b]
SimpsonW(j, k) == IF j = 0 \/ j = 2 * k THEN 1 ELSE IF j % 2 = 1 THEN 4 ELSE 2
KlPart(L, a, b, k) == With((b (-) a) (/) (2 * k), LAMBDA h :
  RSum([j \in 1..(2 * k + 1) |-> Sq(KlRatio(L, a (+) (h (.) (j - 1)))) (.) SimpsonW(j - 1, k)]) (.) (h (/) 3))
KlInt(x) == With(KlTable(x), LAMBDA L : With(D("0.05"), LAMBDA e :
  \* the ratio is smooth at 0: bridge (-e, e) by the mean of its ends
  RN(x) (.) ((KlPart(L, RInt(-5), RNeg(e), 200) (+) KlPart(L, e, RInt(5), 200))
             (+) (e (.) (Sq(KlRatio(L, e)) (+) Sq(KlRatio(L, RNeg(e))))))))

\* published approximations of the critical values
KlSupCritical(n, alpha) ==
  LET m == RInt(n) IN
  IF REq(alpha, D("0.05")) THEN (D("2.67076") (-) (D("3.90704") (/) RSqrt(m))) (+) (D("1.07162") (/) m)
  ELSE IF REq(alpha, D("0.01")) THEN (D("4.10183") (-) (D("7.48001") (/) RSqrt(m))) (+) ((D("0.638394") (.) RLog(m)) (/) RSqrt(m))
  ELSE ((((((D("0.48632") (-) (D("0.00148063") (/) alpha)) (-) (D("6.99e-05") (.) m)) (+) (D("0.217752") (/) RSqrt(alpha)))
        (-) (D("2.39217") (.) RSqrt(m (/) alpha))) (-) (D("0.532872") (/) (RSqrt(alpha) (.) m)))
        (+) (D("0.179786") (.) RLog(m (/) alpha))) (-) (D("0.13083") (.) RLog(alpha (.) m))
KlIntCritical(n, alpha) ==
  LET m == RInt(n) IN
  IF REq(alpha, D("0.05")) THEN (D("-2.88971") (-) (D("0.130082") (.) Sq(RLog(m)))) (+) (D("2.71403") (.) RLog(m))
  ELSE IF REq(alpha, D("0.01")) THEN (D("24.9099") (-) (D("31.9302") (/) RSqrt(m))) (-) ((D("13.2562") (.) RLog(m)) (/) RSqrt(m))
  ELSE With(RSqrt(m (/) alpha), LAMBDA q :
       (((((((D("0.880415") (+) (D("0.00680135") (/) alpha)) (-) (D("35.179") (.) alpha)) (-) (D("0.18045") (/) (alpha (.) m)))
         (-) (D("0.107479") (.) m)) (+) (D("1.67972") (.) RSqrt(alpha (.) m))) (+) ((D("0.0119889") (.) m) (.) RLog(m)))
         (+) (D("0.372023") (.) q)) (-) ((D("0.0213414") (.) q) (.) RLog(m (/) alpha)))

KlLevel(alpha) == D("0.001") \preceq alpha /\ alpha \preceq D("0.1")
\* critical values of the two fixed levels continued to other levels, linear in the logarithm of the level
KlContinued(n, alpha) == With(KlSupCritical(n, D("0.05")), LAMBDA c :
  c (+) ((KlSupCritical(n, D("0.01")) (-) c) (.) (RLog(D("0.05") (/) alpha) (/) RLog(RInt(5)))))
KlFixed(alpha) == REq(alpha, D("0.05")) \/ REq(alpha, D("0.01"))
\* the general formula for the supremum must continue the fixed levels (the library's does not)
KlSupPlausible(n, alpha, v) == With(KlContinued(n, alpha), LAMBDA c : RAbs(v (-) c) \preceq (c (/) 4))

LogNormalStat(c, p, o, x) ==
  CASE c = "KS" -> KS(o.alt, LU(p, x))
    [] c = "CVM" -> CvM(LU(p, x))
    [] c = "QUESENBERRY_MILLER" -> With(RDiff(<<Zero>> \o LU(p, x) \o <<One>>), LAMBDA g : SumSq(g) (+) RDot(Sub(g, 1, Len(g) - 1), Tail(g)))
    [] c = "KL_INT" -> KlInt(x)
    [] OTHER -> With(LogStd(p, x), LAMBDA z : NormalStat(c, Std01, [alt |-> "two", weighted |-> FALSE, cte |-> "3/8"], z))
=============================================================================
