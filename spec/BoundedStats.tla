----------------------------- MODULE BoundedStats -----------------------------
(***************************************************************************)
(* The uniform, beta, gamma and Student statistics.  p: null parameters;   *)
(* o: tuning parameters; s: the sample in increasing order.                *)
(***************************************************************************)
EXTENDS StatCommon

UU(p, s) == (s (-) p.a) (/) (p.b (-) p.a)
BU(p, s) == BetaI(p.alpha, p.beta, s)
GU(p, s) == GammaP(p.alpha, s (.) p.beta)
StdS(p, s) == (s (-) p.loc) (/) p.scale
TU(p, s) == TCdf(p.df, StdS(p, s))

RECURSIVE CeilLog2From(_, _, _)
CeilLog2From(n, k, v) == IF v >= n THEN k ELSE CeilLog2From(n, k + 1, 2 * v)
CeilLog2(n) == CeilLog2From(n, 0, 1)
RECURSIVE RootFrom(_, _)
RootFrom(n, k) == IF k * k >= n THEN k ELSE RootFrom(n, k + 1)
CeilRoot(n) == RootFrom(n, 1)
\* gaps between neighbouring values, the ends of the support included
Gaps(lo, s, hi) == RDiff(<<lo>> \o s \o <<hi>>)
\* quadratic plus consecutive products (Quesenberry and Miller)
QMOf(g) == SumSq(g) (+) RDot(Sub(g, 1, Len(g) - 1), Tail(g))

-----------------------------------------------------------------------------
(* uniform *)
UniformBins(p, o, s) ==
  LET n == Len(s)
      k == IF o.rule = "sturges" THEN CeilLog2(n) + 1
           ELSE IF o.rule = "sqrt" THEN CeilRoot(n)
           ELSE IF o.rule = "auto" THEN RCeil((p.b (-) p.a) (/) ((D("3.5") (.) RSqrt(Var0(s))) (/) RPow(RInt(n), RRat(1, 3))))
           ELSE IF o.rule = "other" THEN 10 ELSE o.bins
  IN MaxI(2, k)
Chi2U(p, o, s) == With(UniformBins(p, o, s), LAMBDA k :
  PowerDivergence(Histogram(s, Edges(p.a, p.b, k)), Const(k, RN(s) (/) k), o.lam))
\* squared distance of a Gaussian kernel density estimate from the uniform density on a grid of 1000 points
BickelRosenblatt(o, u) ==
  With(IF o.auto THEN (D("1.06") (.) RSqrt(Var0(u))) (.) RPow(RN(u), RRat(-1, 5)) ELSE o.h, LAMBDA h :
    RSum([j \in 1..1000 |-> Sq((RMean(NormPdf((RRat(j - 1, 999) (-) u) (/) h)) (/) h) (-) 1)]) (/) 999)
\* Stein U-statistic with kernel max(x, y) - x - y + (x^2 + y^2) / 2
SteinU(u) == LET n == Len(u) IN
  (((SumSq(u) (.) (n - 1)) (/) 2) (-) RDot(RInt(n) (-) RIota(n), u)) (/) RBin(n, 2)
\* the same over the uncensored pairs, each weighted by the inverse Kaplan-Meier survival of the censoring
\* at its two values (and counted twice); z: observations with their censoring marks, in increasing order
RECURSIVE KMSurvival(_, _, _)
KMSurvival(z, k, n) == IF k = 0 THEN One ELSE
  KMSurvival(z, k - 1, n) (.) (IF z[k].censored THEN One (-) RRat(1, n - k + 1) ELSE One)
CensoredStein(z) ==
  LET n == Len(z)
      idx == {i \in 1..n : ~z[i].censored}
      last(i) == CHOOSE k \in i..n : REq(z[k].u, z[i].u) /\ (k = n \/ ~REq(z[k + 1].u, z[i].u))
      pairs == {t \in idx \X idx : t[1] < t[2]}
  IN IF \A i \in 1..n : ~z[i].censored THEN SteinU([i \in 1..n |-> z[i].u])
     ELSE IF pairs = {} THEN Zero
     ELSE With([i \in 1..n |-> One (/) RMax2(KMSurvival(z, last(i), n), D("1e-10"))], LAMBDA w :
       LET ker(x, y) == ((RMax2(x, y) (-) x) (-) y) (+) ((Sq(x) (+) Sq(y)) (/) 2)
           term(i) == With([j \in 1..n |-> IF <<i, j>> \in pairs THEN (w[i] (.) w[j]) (.) ker(z[i].u, z[j].u) ELSE Zero], LAMBDA v : RSum(v))
       IN (RSum([i \in 1..n |-> term(i)]) (.) 2) (/) Cardinality(pairs))
\* Neyman's smooth test: normalised Legendre polynomials up to degree k
RECURSIVE Legendre(_, _)
Legendre(j, y) == IF j = 0 THEN Pw(y, 0) ELSE IF j = 1 THEN y
  ELSE (((y (.) (2 * j - 1)) (.) Legendre(j - 1, y)) (-) (Legendre(j - 2, y) (.) (j - 1))) (/) j
Neyman(o, u) == With((u (.) 2) (-) 1, LAMBDA y :
  RSum([j \in 1..o.k |-> Sq(RSum(Legendre(j, y))) (.) (2 * j + 1)]) (/) Len(u))
Sherman(p, s) == With(Gaps(p.a, s, p.b), LAMBDA g : Half (.) RSum(RAbs(g (-) ((p.b (-) p.a) (/) (Len(s) + 1)))))

UniformStat(c, p, o, s) ==
  CASE c = "KS" -> KS(o.alt, UU(p, s))
    [] c = "LILLIE" -> KS("two", UU(p, s))
    [] c = "AD" -> ADu(UU(p, s))
    [] c = "CVM" -> CvM(UU(p, s))
    [] c = "KUIPER" -> Kuiper(UU(p, s))
    [] c = "WATSON" -> Watson(UU(p, s))
    [] c = "ZHANG" -> (IF o.test = "A" THEN ZhangA(UU(p, s)) ELSE IF o.test = "C" THEN ZhangC(UU(p, s)) ELSE ZhangK(UU(p, s)))
    [] c = "CHI2_PEARSON" -> Chi2U(p, o, s)
    [] c = "GREENWOOD" -> SumSq(Gaps(Zero, UU(p, s), One))
    [] c = "BICKEL_ROSENBLATT" -> With(UU(p, s), LAMBDA u : BickelRosenblatt(o, u))
    [] c = "STEIN_U" -> SteinU(UU(p, s))
    [] c = "CENSORED_STEIN_U" -> CensoredStein([i \in 1..Len(s) |-> [u |-> (s[i] (-) p.a) (/) (p.b (-) p.a), censored |-> o.censored[i] = 1]])
    [] c = "NEYMAN" -> With(UU(p, s), LAMBDA u : Neyman(o, u))
    [] c = "SHERMAN" -> Sherman(p, s)
    [] c = "QUESENBERRY_MILLER" -> QMOf(Gaps(p.a, s, p.b))

-----------------------------------------------------------------------------
(* beta *)
Chi2B(p, o, s) == With(Edges(Zero, One, CeilRoot(Len(s))), LAMBDA e :
  PowerDivergence(Histogram(s, e), RDiff(BU(p, e)) (.) Len(s), o.lam))
MomentB(p, s) ==
  LET t == p.alpha (+) p.beta
      v == (p.alpha (.) p.beta) (/) (Sq(t) (.) (t (+) 1))
      d(x, y) == (RSqrt(RN(s)) (.) (x (-) y)) (/) RSqrt(v)
  IN Sq(d(RMean(s), p.alpha (/) t)) (+) Sq(d(Var1(s), v))
\* bias-corrected sample skewness and excess kurtosis against those of the law
SkewKurtB(p, s) ==
  LET n == Len(s) t == p.alpha (+) p.beta ab == p.alpha (.) p.beta
      g1 == Skewness(s) (.) (RSqrt(RInt(n * (n - 1))) (/) (n - 2))
      g2 == ((((Kurtosis(s) (-) 3) (.) (n + 1)) (+) 6) (.) (n - 1)) (/) ((n - 2) * (n - 3))
      h1 == (((p.beta (-) p.alpha) (.) 2) (.) RSqrt(t (+) 1)) (/) ((t (+) 2) (.) RSqrt(ab))
      h2 == (((Sq(p.alpha (-) p.beta) (.) (t (+) 1)) (-) (ab (.) (t (+) 2))) (.) 6) (/) ((ab (.) (t (+) 2)) (.) (t (+) 3))
  IN (RRat(n, 6) (.) Sq(g1 (-) h1)) (+) (RRat(n, 24) (.) Sq(g2 (-) h2))
RatioB(p, s) == RSqrt(RN(s)) (.) RAbs((RExp(RMean(RLog(s))) (/) RMean(s))
  (-) (RExp(RDigamma(p.alpha) (-) RDigamma(p.alpha (+) p.beta)) (/) (p.alpha (/) (p.alpha (+) p.beta))))
\* Vasicek's spacing estimate of the entropy (empty windows left out) against the entropy of the law
EntropyB(p, o, s) ==
  LET n == Len(s) m == IF o.w = 0 THEN n \div 4 ELSE o.w
      t == p.alpha (+) p.beta
      h(i) == With(s[MinI(n, i + m)] (-) s[MaxI(1, i - m)], LAMBDA d : IF Zero \prec d THEN RLog((d (.) n) (/) (2 * m)) ELSE Zero)
      lb == (RLGamma(p.alpha) (+) RLGamma(p.beta)) (-) RLGamma(t)
      th == ((lb (-) ((p.alpha (-) 1) (.) RDigamma(p.alpha))) (-) ((p.beta (-) 1) (.) RDigamma(p.beta))) (+) ((t (-) 2) (.) RDigamma(t))
  IN RSqrt(RInt(n)) (.) RAbs(RMean([i \in 1..n |-> h(i)]) (-) th)
\* the mode of a Gaussian kernel density estimate (Scott's bandwidth) on a grid of 200 points; where the
\* density is all but equal at several points any of them may be taken
ModeGrid(j) == D("0.01") (+) (RInt(j - 1) (.) (D("0.98") (/) 199))
ModeValues(p, s) ==
  With(RSqrt(Var1(s)) (.) RPow(RN(s), RRat(-1, 5)), LAMBDA h :
    With([j \in 1..200 |-> RSum(RExp(RNeg(Sq((ModeGrid(j) (-) s) (/) h)) (/) 2))], LAMBDA f : With(RMaxOf(f), LAMBDA top :
      {RSqrt(RN(s)) (.) RAbs(ModeGrid(j) (-) ((p.alpha (-) 1) (/) ((p.alpha (+) p.beta) (-) 2))) :
         j \in {i \in 1..200 : (top (.) D("0.9999999999")) \preceq f[i]}})))

BetaStat(c, p, o, s) ==
  CASE c = "KS" -> KS(o.alt, BU(p, s))
    [] c = "LILLIE" -> KS("two", BU(p, s))
    [] c = "AD" -> AD(RLog(BU(p, s)), RLog(BetaI(p.beta, p.alpha, One (-) s)))
    [] c = "CVM" -> CvM(BU(p, s))
    [] c = "KUIPER" -> Kuiper(BU(p, s))
    [] c = "W" -> Watson(BU(p, s))
    [] c = "CHI2_PEARSON" -> Chi2B(p, o, s)
    [] c = "MB" -> MomentB(p, s)
    [] c = "SK" -> SkewKurtB(p, s)
    [] c = "RT" -> RatioB(p, s)
    [] c = "ENT" -> EntropyB(p, o, s)

-----------------------------------------------------------------------------
(* gamma (shape alpha, rate beta) *)
GammaBins(p, o, s) ==
  LET k == o.bins n == Len(s)
      \* the k - 1 inner edges; the outer bins are unbounded
  IN With([j \in 1..(k - 1) |-> GammaPInv(p.alpha, RInt(j) (.) (One (/) k)) (/) p.beta], LAMBDA e :
       [b \in 1..k |-> RInt(Cardinality({i \in 1..n : (b = 1 \/ e[b - 1] \preceq s[i]) /\ (b = k \/ s[i] \prec e[b])}))])
BinnedG(p, o, s, lam) == PowerDivergence(GammaBins(p, o, s), Const(o.bins, RN(s) (/) o.bins), lam)
PPCC(p, s) == LET n == Len(s) IN
  One (-) Corr(s, [i \in 1..n |-> GammaPInv(p.alpha, (RInt(i) (-) D("0.375")) (/) (RInt(n) (+) D("0.25"))) (/) p.beta])
LillieG(s) == With([m |-> RMean(s), v |-> Var1(s)], LAMBDA w : KS("two", GammaP(Sq(w.m) (/) w.v, s (.) (w.m (/) w.v))))
GammaStat(c, p, o, s) ==
  CASE c = "KS" -> KS(o.alt, GU(p, s))
    [] c = "LILLIE" -> LillieG(s)
    [] c = "AD" -> AD(RLog(GU(p, s)), RLog(GammaQ(p.alpha, s (.) p.beta)))
    [] c = "CVM" -> CvM(GU(p, s))
    [] c = "KUI" -> Kuiper(GU(p, s))
    [] c = "WAT" -> Watson(GU(p, s))
    [] c = "MT" -> MinToshiyuki(GU(p, s))
    [] c = "GRW" -> SumSq(Gaps(Zero, GU(p, s), One))
    [] c = "MOR" -> RNeg(RSum(RLog(Gaps(Zero, GU(p, s), One) (.) Len(s))))
    [] c = "CHI2_PEARSON" -> BinnedG(p, o, s, One)
    [] c = "G_TEST" -> BinnedG(p, o, s, Zero)
    [] c = "CRESSIE_READ" -> BinnedG(p, o, s, o.power)
    [] c = "PPCC" -> PPCC(p, s)

-----------------------------------------------------------------------------
(* Student with location and scale *)
Clip(u) == [i \in 1..Len(u) |-> RMax2(D("1e-10"), RMin2(One (-) D("1e-10"), u[i]))]
StudentBins(p, o, s) ==
  LET k == o.bins n == Len(s) IN
  With([j \in 1..(k - 1) |-> TInv(p.df, RInt(j) (.) (One (/) k))], LAMBDA e : With(StdS(p, s), LAMBDA z :
    [b \in 1..k |-> RInt(Cardinality({i \in 1..n : (b = 1 \/ e[b - 1] \preceq z[i]) /\ (b = k \/ z[i] \prec e[b])}))]))
StudentStat(c, p, o, s) ==
  CASE c = "KS" -> KS(o.alt, TU(p, s))
    [] c = "LILLIE" -> KS("two", TU(p, s))
    [] c = "AD" -> AD(RLog(TU(p, s)), RLog(TCdf(p.df, RNeg(StdS(p, s)))))
    [] c = "CVM" -> CvM(TU(p, s))
    [] c = "KUIPER" -> Kuiper(TU(p, s))
    [] c = "WATSON" -> Watson(TU(p, s))
    [] c = "ZHANG_ZA" -> With(TU(p, s), LAMBDA u : ZhangA(Clip(u)))
    [] c = "ZHANG_ZC" -> With(TU(p, s), LAMBDA u : ZhangC(Clip(u)))
    [] c = "CHI2" -> PowerDivergence(StudentBins(p, o, s), Const(o.bins, RN(s) (/) o.bins), One)
=============================================================================
