---------------------------- MODULE WeibullStats ----------------------------
(***************************************************************************)
(* The Weibull statistics.  p: null parameters of the exponentiated        *)
(* Weibull law, F(x) = (1 - exp(-x^k))^a; o: tuning parameters; s: the     *)
(* sample in increasing order.  Tests of the whole family use only the     *)
(* logarithms of the sample, which follow a smallest-extreme-value law.    *)
(***************************************************************************)
EXTENDS StatCommon

WU(p, s) == Pw(RNeg(RExpm1(RNeg(Pw(s, p.k)))), p.a)

\* the zero of the increasing function F in [lo, hi]
RECURSIVE Bisect(_, _, _, _)
Bisect(F(_), lo, hi, k) == IF k = 0 THEN (lo (+) hi) (/) 2
  ELSE With((lo (+) hi) (/) 2, LAMBDA m : IF F(m) \prec Zero THEN Bisect(F, m, hi, k - 1) ELSE Bisect(F, lo, m, k - 1))
\* maximum-likelihood shape of a Weibull sample with logarithms y, and the fitted exponents t (y - ln eta)
MleShape(y) == LET F(t) == With(RExp(y (.) t), LAMBDA e : ((RDot(y, e) (/) RSum(e)) (-) (One (/) t)) (-) RMean(y))
               IN Bisect(F, D("0.0001"), RInt(50), 60)
MleFit(y) == With(MleShape(y), LAMBDA t : (y (.) t) (-) RLog(RMean(RExp(y (.) t))))

AndersonDarlingW(s) == With(MleFit(RLog(s)), LAMBDA w : With(RExp(w), LAMBDA e : AD(RLog(RNeg(RExpm1(RNeg(e)))), RNeg(e))))

-----------------------------------------------------------------------------
(* probability plots *)
\* Blom-type weights of the order statistics
WppWeights(n) == With(RLog(RInt(n + 1) (/) (RInt(n + 1) (-) RIota(n - 1))), LAMBDA w : With((w (.) (RLog(w) (+) 1)) (-) 1, LAMBDA v :
  [wi |-> w \o <<RInt(n) (-) RSum(w)>>, wn |-> v \o <<(D("0.4228") (.) n) (-) RSum(v)>>]))
WppB(y) == With(WppWeights(Len(y)), LAMBDA w : (D("0.6079") (.) RDot(w.wn, y)) (-) (D("0.257") (.) RDot(w.wi, y)))
OK(y) == LET n == Len(y)
             sig == RDot(((((Iota0(n - 1) (+) 1) \o <<RInt(n)>>) (.) 2) (-) (n + 1)), y) (/) (RLog(Two) (.) (n - 1))
             r == RSqrt(RInt(n))
         IN (((WppB(y) (/) sig) (-) 1) (-) (D("0.13") (/) r) (+) (D("1.18") (/) n)) (/) ((D("0.49") (/) r) (-) (D("0.36") (/) n))
SB(y) == LET n == Len(y) IN (Sq(WppB(y)) (/) n) (/) SS(y)
\* logs of the sample in the given order against the scores of i / (n + 1)
EvScores(q) == RLog(RNeg(RLog(One (-) q)))
RSB(y) == LET n == Len(y) IN RInt(n) (.) (One (-) Sq(Corr(y, EvScores(RIota(n) (/) (n + 1)))))
REJG(y) == LET n == Len(y) m == EvScores((RIota(n) (-) D("0.3175")) (/) (RInt(n) (+) D("0.365"))) IN PowI(Corr(y, m), 4)
SPP(y, reversed) ==
  LET n == Len(y) arc(v) == (RAsin(RSqrt(v)) (.) 2) (/) Pi
      f == MleFit(y)
  IN RMaxOf(RAbs(arc((RIota(n) (-) Half) (/) n) (-) arc(RNeg(RExpm1(RNeg(RExp(IF reversed THEN RRev(f) ELSE f)))))))
\* skewness and kurtosis of the negated logs
ST1(y) == Sq((RNeg(Skewness(y)) (-) D("1.139547")) (/) RSqrt(RRat(20, Len(y))))
ST2(y) == Sq(((Kurtosis(y) (+) (D("7.55") (.) Skewness(y))) (+) D("3.21")) (/) RSqrt(D("219.72") (/) Len(y)))

-----------------------------------------------------------------------------
(* normalised spacings *)
\* David and Johnson's series for the expected order statistics of the smallest-extreme-value law
ExpectedEv(n) ==
  LET p == RIota(n) (/) (n + 1) q == One (-) p IN
  With(RDiv(RInt(-1), q (.) RLog(q)), LAMBDA d1 : With((d1 (/) q) (-) Sq(d1), LAMBDA d2 :
    With(((d2 (/) q) (+) (d1 (/) Sq(q))) (-) ((d1 (.) d2) (.) 2), LAMBDA d3 :
      LET d4 == (((d3 (/) q) (+) ((d2 (.) 2) (/) Sq(q))) (+) ((d1 (.) 2) (/) Cube(q))) (-) ((Sq(d2) (+) (d1 (.) d3)) (.) 2)
      IN (EvScores(p) (+) (((p (.) q) (/) (2 * (n + 2))) (.) d2))
         (+) (((p (.) q) (/) ((n + 2) * (n + 2))) (.) ((((q (-) p) (.) d3) (/) 3) (+) ((((p (.) q) (.) d4) (/) 8)))))))
GSpacings(y) == RDiff(y) (/) RDiff(ExpectedEv(Len(y)))
TikuSingh(y) == With(GSpacings(y), LAMBDA g : LET n == Len(y) IN
  (Two (.) RDot(RInt(n - 1) (-) RIota(n - 2), Sub(g, 1, n - 2))) (/) (RSum(g) (.) (n - 2)))
LOS(y) == With(GSpacings(y), LAMBDA g : LET n == Len(y) IN
  With(RSort(Sub(RCum(g), 1, n - 2) (/) RSum(g)), LAMBDA z : AD(RLog(z), RLog(One (-) z))))
MSF(y) == With(GSpacings(y), LAMBDA g : LET n == Len(y) IN RSum(Sub(g, n \div 2 + 1, n - 1)) (/) RSum(g))

-----------------------------------------------------------------------------
(* Laplace transforms *)
LaplaceT(o, s, t) ==
  RN(s) (.) RSum([j \in 1..Len(t) |->
    RExp((o.a (.) t[j]) (-) RExp(o.a (.) t[j])) (.) Sq(RExp(RLGamma(One (-) t[j])) (-) RMean(RExp(RNeg(s (.) t[j]))))])
LT2(o, s) == LaplaceT(o, s, RNeg(RRev(RIota(o.m))) (/) o.m)
LT3(o, s) == LaplaceT(o, s, With(D("2.99") (/) (o.m - 1), LAMBDA h : (Iota0(o.m) (.) h) (-) D("2.5")))
CabanaQuiroz(s) ==
  LET v(t) == RSqrt(RN(s)) (.) (RMean(RExp(RNeg(s (.) D(t)))) (-) RExp(RLGamma(One (-) D(t))))
      v1 == v("-0.1") v2 == v("0.02")
      a == D("1.59") b == D("0.53") c == D("0.91")
  IN (((b (.) Sq(v1)) (-) (((v1 (.) v2) (.) c) (.) 2)) (+) (a (.) Sq(v2))) (/) ((a (.) b) (-) Sq(c))

-----------------------------------------------------------------------------
(* other tests of the simple null *)
MahdiDoostparast(u) == LET n == Len(u) e == (RIota(n - 1) (/) n) (-) 1 IN
  RInt(n) (.) ((RDot(Sq(e), RDiff(RLog(u))) (+) (RDot(e, RDiff(u)) (.) 2)) (+) Half)
LiaoShimokawa(u) == RSum(Worst(u) (/) RSqrt(u (.) ((One (-) u) (+) D("1e-10")))) (/) RSqrt(RN(u))
KullbackLeibler(o, y) == LET n == Len(y) m == IF o.w = 0 THEN n \div 2 ELSE o.w IN
  (RMean(RExp(y)) (-) RMean(y))
  (-) RMean(RLog([i \in 1..n |-> (y[MinI(n, i + m)] (-) y[MaxI(1, i - m)]) (.) RRat(n, 2 * m)]))
RECURSIVE CeilSqrtFrom(_, _)
CeilSqrtFrom(n, k) == IF k * k >= n THEN k ELSE CeilSqrtFrom(n, k + 1)
CeilSqrt(n) == CeilSqrtFrom(n, 1)
Chi2W(p, s) == LET n == Len(s) IN With(Edges(s[1], s[n], CeilSqrt(n)), LAMBDA e :
  PowerDivergence(Histogram(s, e) (/) n, RDiff(WU(p, e)), One))

WeibullMin(c) == IF c = "AD" THEN 5 ELSE 4
WeibullStat(c, p, o, s) ==
  CASE c = "KS" -> KS(o.alt, WU(p, s))
    [] c = "LILLIE" -> KS("two", WU(p, s))
    [] c = "CVM" -> CvM(WU(p, s))
    [] c = "W" -> Watson(WU(p, s))
    [] c = "MT" -> MinToshiyuki(WU(p, s))
    [] c = "AD" -> AndersonDarlingW(s)
    [] c = "MD" -> MahdiDoostparast(WU(p, s))
    [] c = "LS" -> LiaoShimokawa(WU(p, s))
    [] c = "CHI2_PEARSON" -> Chi2W(p, s)
    [] c = "KL" -> KullbackLeibler(o, RLog(s))
    [] c = "LT2" -> LT2(o, s)
    [] c = "LT3" -> LT3(o, s)
    [] c = "CQ*" -> CabanaQuiroz(s)
    [] c = "TS" -> TikuSingh(RLog(s))
    [] c = "LOS" -> LOS(RLog(s))
    [] c = "MSF" -> MSF(RLog(s))
    [] c = "OK" -> OK(RLog(s))
    [] c = "SB" -> SB(RLog(s))
    [] c = "RSB" -> RSB(RLog(s))
    [] c = "REJG" -> REJG(RLog(s))
    [] c = "SPP" -> SPP(RLog(s), FALSE)
    [] c = "ST1" -> ST1(RLog(s))
    [] c = "ST2" -> ST2(RLog(s))
=============================================================================
