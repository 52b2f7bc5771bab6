----------------------------- MODULE NormalStats -----------------------------
(***************************************************************************)
(* The normality statistics.  p: null parameters [mean, var] (used by the  *)
(* statistics of a simple null only), o: options, s: the sample in         *)
(* increasing order.  Every statistic is a function of the order           *)
(* statistics alone.                                                       *)
(***************************************************************************)
EXTENDS StatCommon

NU(p, s) == PhiCdf((s (-) p.mean) (/) RSqrt(p.var))
\* the fitted distribution function at the sample
NFit(s) == PhiCdf(Studentised(s))

\* normal scores of the plotting positions (i - a) / (n + 1 - 2 a)
Blom(n, a) == PhiInv((RIota(n) (-) a) (/) (RInt(n + 1) (-) (Two (.) a)))
C38 == D("0.375")

-----------------------------------------------------------------------------
(* regression and correlation *)
SWWeights(n) ==
  IF n = 3 THEN <<RSqrt(Half), Zero, RNeg(RSqrt(Half))>>
  ELSE With(Blom(n, C38), LAMBDA m : With(SumSq(m), LAMBDA m2 :
    LET u == One (/) RSqrt(RInt(n))
        wn == Poly(<<"-2.706056", "4.434685", "-2.07119", "-0.147981", "0.221157", "0">>, u) (+) (m[n] (/) RSqrt(m2))
        wn1 == Poly(<<"-3.582633", "5.682633", "-1.752461", "-0.293762", "0.042981", "0">>, u) (+) (m[n - 1] (/) RSqrt(m2))
    IN IF n <= 5
       THEN With((m2 (-) (Two (.) Sq(m[n]))) (/) (One (-) (Two (.) Sq(wn))), LAMBDA phi :
              <<RNeg(wn)>> \o (Sub(m, 2, n - 1) (/) RSqrt(phi)) \o <<wn>>)
       ELSE With(((m2 (-) (Two (.) Sq(m[n]))) (-) (Two (.) Sq(m[n - 1]))) (/) ((One (-) (Two (.) Sq(wn))) (-) (Two (.) Sq(wn1))), LAMBDA phi :
              <<RNeg(wn), RNeg(wn1)>> \o (Sub(m, 3, n - 2) (/) RSqrt(phi)) \o <<wn1, wn>>)))
ShapiroWilk(s) == Sq(RDot(SWWeights(Len(s)), s)) (/) SS(s)

ShapiroFrancia(s) == With(Blom(Len(s), C38), LAMBDA e : Sq(RDot(e, s)) (/) (SS(s) (.) SumSq(e)))

FilliMedians(n) == LET e == RPow(Half, One (/) RInt(n)) m == (RIota(n) (-) D("0.3175")) (/) (RInt(n) (+) D("0.365"))
                   IN [i \in 1..n |-> IF i = 1 THEN One (-) e ELSE IF i = n THEN e ELSE m[i]]
Filliben(s) == Corr(s, PhiInv(FilliMedians(Len(s))))

\* Ryan-Joiner; the weighted version averages the positions of tied values
RyanJoiner(o, s) ==
  LET n == Len(s)
      a == IF o.cte = "1/2" THEN Half ELSE IF o.cte = "0" THEN Zero ELSE C38
      u == (RIota(n) (-) a) (/) (RInt(n + 1) (-) (Two (.) a))
      tied(i) == {j \in 1..n : REq(s[i], s[j])}
      lo(i) == CHOOSE j \in tied(i) : \A k \in tied(i) : j <= k
      hi(i) == CHOOSE j \in tied(i) : \A k \in tied(i) : j >= k
      w == IF o.weighted THEN [i \in 1..n |-> RMean(Sub(u, lo(i), hi(i)))] ELSE u
  IN Corr(PhiInv(TLCEval(w)), s)

\* Rahman and Govindarajulu's modification of the Shapiro-Wilk statistic
SWRG(s) ==
  LET n == Len(s) IN
  With(PhiInv(RIota(n) (/) (n + 1)), LAMBDA m : With(NormPdf(m), LAMBDA f : With(m (.) f, LAMBDA mf :
    LET dd == (<<Zero>> \o Sub(mf, 1, n - 1)) (-) (mf (.) 2) (+) (Sub(mf, 2, n) \o <<Zero>>)
    IN With(f (.) dd, LAMBDA a : Sq(RDot(a, s)) (/) (SumSq(a) (.) SS(s))))))

ChenShapiro(s) ==
  LET n == Len(s) IN
  RSqrt(RInt(n)) (.) (One (-) (RSum(RDiff(s) (/) RDiff(Blom(n, C38))) (/) (RInt(n - 1) (.) RSqrt(Var1(s)))))

\* Zhang's Q: log of the ratio of two linear estimates of sigma
ZQa(n, u) == With(One (/) ((Sub(u, 2, n) (-) u[1]) (.) (n - 1)), LAMBDA a : <<RNeg(RSum(a))>> \o a)
ZQb(n, u) == With(One (/) (Sub(u, 1, n - 4) (-) Sub(u, 5, n)), LAMBDA e :
               ((e \o Const(4, Zero)) (-) (Const(4, Zero) \o e)) (/) (n - 4))
ZhangQ(s) == LET n == Len(s) IN With(Blom(n, C38), LAMBDA u : RLog(RDot(ZQa(n, u), s) (/) RDot(ZQb(n, u), s)))
ZhangQStar(s) == LET n == Len(s) IN With(Blom(n, C38), LAMBDA u : RLog(RDot(ZQa(n, u), RRev(s)) (/) RDot(ZQb(n, u), RRev(s))))

\* Coin: coefficient of the cubic term in the regression on expected normal order statistics (AS 177)
CorrectionAS177(i, n) ==
  LET c1 == <<"9.5", "28.7", "1.9", "0", "-7", "-6.2", "-1.6">>
      c2 == <<"-6195", "-9569", "-6728", "-17614", "-8278", "-3570", "1075">>
      c3 == <<"93380", "175160", "410400", "2157600", "2376000", "2065000", "2065000">>
      an == One (/) RInt(n * n)
  IN IF i * n = 4 THEN D("1.9e-5")
     ELSE IF i > 7 \/ (i # 4 /\ n > 20) \/ (i = 4 /\ n > 40) THEN Zero
     ELSE (D(c1[i]) (+) (an (.) (D(c2[i]) (+) (an (.) D(c3[i]))))) (.) D("1e-6")
OrderScore(i, n) ==
  LET k == MinI(i, 4)
      eps == <<"0.419885", "0.450536", "0.456936", "0.468488">>
      dl1 == <<"0.112063", "0.12177", "0.239299", "0.215159">>
      dl2 == <<"0.080122", "0.111348", "-0.211867", "-0.115049">>
      gam == <<"0.474798", "0.469051", "0.208597", "0.259784">>
      lam == <<"0.282765", "0.304856", "0.407708", "0.414093">>
      e1 == (RInt(i) (-) D(eps[k])) (/) (RInt(n) (+) D(gam[k]))
      e2 == RPow(e1, IF i < 4 THEN D(lam[k]) ELSE D(lam[4]) (+) (D("-0.283833") (/) (RInt(i) (+) D("-0.106136"))))
  IN RNeg(PhiInv((e1 (+) ((e2 (.) (D(dl1[k]) (+) (e2 (.) D(dl2[k])))) (/) n)) (-) CorrectionAS177(i, n)))
Coin(s) ==
  LET n == Len(s) h == n \div 2 IN
  With([i \in 1..h |-> OrderScore(i, n)], LAMBDA sp : With(Studentised(s), LAMBDA z :
    With(RNeg(sp) \o (IF n % 2 = 1 THEN <<Zero>> ELSE <<>>) \o RRev(sp), LAMBDA a :
      LET S(k) == RSum(Pw(a, k)) IN
      Sq(((S(4) (.) RDot(a, z)) (-) (S(2) (.) RDot(Pw(a, 3), z))) (/) ((S(4) (.) S(4)) (-) (S(2) (.) S(6)))))))

DAgostino(s) == LET n == Len(s) IN
  RSqrt(RInt(n)) (.) (((RDot(RIota(n) (-) RRat(n + 1, 2), s) (/) (RInt(n * n) (.) RSqrt(Var0(s)))) (-) D("0.28209479")) (/) D("0.02998598"))

-----------------------------------------------------------------------------
(* moments *)
JarqueBera(s) == RRat(Len(s), 6) (.) (Sq(Skewness(s)) (+) (Sq(Kurtosis(s) (-) 3) (/) 4))

\* transformation of the skewness to normality (D'Agostino 1970); zero skewness counts as 1 if zeroAs1
SkewB(n) == (RInt(3 * (n * n + 27 * n - 70)) (.) ((n + 1) * (n + 3))) (/) (RInt((n - 2) * (n + 5)) (.) ((n + 7) * (n + 9)))
SkewZ(n, b1, zeroAs1) ==
  LET w2 == RSqrt(Two (.) (SkewB(n) (-) 1)) (-) 1
      y0 == b1 (.) RSqrt(RInt((n + 1) * (n + 3)) (/) (6 * (n - 2)))
      y == IF zeroAs1 /\ REq(y0, Zero) THEN One ELSE y0
      q == y (/) RSqrt(Two (/) (w2 (-) 1))
  IN (One (/) RSqrt(Half (.) RLog(w2))) (.) RLog(q (+) RSqrt(Sq(q) (+) 1))
SkewTest(s) == SkewZ(Len(s), Skewness(s), TRUE)

\* transformation of the kurtosis to normality (Anscombe and Glynn 1983)
KurtTest(s) ==
  LET n == Len(s)
      e == RRat(3 * (n - 1), n + 1)
      v == (RInt(24) (.) (RInt(n * (n - 2)) (.) (n - 3))) (/) (RInt((n + 1) * (n + 1)) (.) ((n + 3) * (n + 5)))
      sb == RRat(6 * (n * n - 5 * n + 2), (n + 7) * (n + 9)) (.) RSqrt(RInt(6 * (n + 3) * (n + 5)) (/) (RInt(n * (n - 2)) (.) (n - 3)))
  IN With((Kurtosis(s) (-) e) (/) RSqrt(v), LAMBDA x : With(sb, LAMBDA b :
       With(RInt(6) (+) ((RInt(8) (/) b) (.) ((Two (/) b) (+) RSqrt(One (+) (RInt(4) (/) Sq(b))))), LAMBDA a :
         LET den == One (+) (x (.) RSqrt(Two (/) (a (-) 4)))
             root == RPow((One (-) (Two (/) a)) (/) RAbs(den), RRat(1, 3))
             t2 == IF den \prec Zero THEN RNeg(root) ELSE root
             c == Two (/) (a (.) 9)
         IN ((One (-) c) (-) t2) (/) RSqrt(c))))

DoornikHansen(s) ==
  LET n == Len(s)
      p1 == n * n + 15 * n - 4   p2 == n * n + 27 * n - 70   p3 == n * n + 2 * n - 5
      p4 == ((RInt(n * n) (.) n) (+) (37 * n * n)) (+) (11 * n - 313)
      d == RInt((n - 3) * (n + 1)) (.) p1
      a == (RInt((n - 2) * (n + 5)) (.) (RInt(n + 7) (.) p2)) (/) (d (.) 6)
      c == (RInt((n - 7) * (n + 5)) (.) (RInt(n + 7) (.) p3)) (/) (d (.) 6)
      k == (RInt((n + 5) * (n + 7)) (.) p4) (/) (d (.) 12)
  IN With(Skewness(s), LAMBDA b1 : With(Kurtosis(s), LAMBDA b2 : With(a (+) (Sq(b1) (.) c), LAMBDA al :
       LET q == (((b2 (-) 1) (-) Sq(b1)) (.) 2) (.) k
           z2 == ((RPow((Half (.) q) (/) al, RRat(1, 3)) (-) 1) (+) (One (/) (al (.) 9))) (.) RSqrt(al (.) 9)
       IN Sq(SkewZ(n, b1, FALSE)) (+) Sq(z2))))

RobustJB(s) == LET n == Len(s) j == RSqrt(Pi (/) 2) (.) MeanAbs(s (-) Median(s)) IN
  (RRat(n, 6) (.) Sq(Mom(s, 3) (/) Cube(j))) (+) (RRat(n, 64) (.) Sq((Mom(s, 4) (/) PowI(j, 4)) (-) 3))

BonettSeier(s) == LET n == Len(s) w == D("13.29") (.) (RLog(RSqrt(Var0(s))) (-) RLog(MeanAbs(Centered(s)))) IN
  RSqrt(RInt(n + 2)) (.) ((w (-) 3) (/) D("3.54"))

\* normalised Hermite polynomials of degree 0..8
He(k, z) ==
  LET z2 == Sq(z) r(m) == RSqrt(RInt(m)) IN
  CASE k = 0 -> Pw(z, 0)
    [] k = 1 -> z
    [] k = 2 -> (z2 (-) 1) (/) r(2)
    [] k = 3 -> (z (.) (z2 (-) 3)) (/) r(6)
    [] k = 4 -> ((z2 (.) (z2 (-) 6)) (+) 3) (/) r(24)
    [] k = 5 -> (z (.) ((z2 (.) (z2 (-) 10)) (+) 15)) (/) r(120)
    [] k = 6 -> ((z2 (.) ((z2 (.) (z2 (-) 15)) (+) 45)) (-) 15) (/) r(720)
    [] k = 7 -> (z (.) ((z2 (.) ((z2 (.) (z2 (-) 21)) (+) 105)) (-) 105)) (/) r(5040)
    [] k = 8 -> ((z2 (.) ((z2 (.) ((z2 (.) (z2 (-) 28)) (+) 210)) (-) 420)) (+) 105) (/) r(40320)
HeSum(k, z) == RSum(He(k, z))
BontempsMeddahi(s, top) == With(Studentised(s), LAMBDA z :
  (RSum([k \in 1..(top - 2) |-> Sq(HeSum(k + 2, z))])) (/) Len(s))
CabanaCabana1(s) == With(Studentised(s), LAMBDA z : With([k \in 1..8 |-> HeSum(k, z) (/) RSqrt(RN(s))], LAMBDA m :
  LET v == ((((He(0, z) (.) m[4]) (+) ((He(1, z) (.) m[5]) (/) RSqrt(Two))) (+) ((He(2, z) (.) m[6]) (/) RSqrt(RInt(3))))
            (+) ((He(3, z) (.) m[7]) (/) RSqrt(RInt(4)))) (+) ((He(4, z) (.) m[8]) (/) RSqrt(RInt(5)))
  IN RMaxOf(RAbs((PhiCdf(z) (.) m[3]) (-) (NormPdf(z) (.) v)))))
CabanaCabana2(s) == With(Studentised(s), LAMBDA z : With([k \in 1..8 |-> HeSum(k, z) (/) RSqrt(RN(s))], LAMBDA m : With(NormPdf(z), LAMBDA f :
  LET g(a, b, i, j) == (He(i, z) (.) RSqrt(RRat(a, b))) (+) He(j, z)
      \* the term of degree 8 enters twice, as in the reference implementation this statistic was ported from
      v == (((g(2, 1, 0, 2) (.) m[5]) (+) (g(3, 2, 1, 3) (.) m[6])) (+) (g(4, 3, 2, 4) (.) m[7])) (+) ((g(5, 4, 3, 5) (.) m[8]) (.) 2)
  IN RMaxOf(RAbs((((PhiCdf(z) (-) (z (.) f)) (.) m[4]) (-) (f (.) m[3])) (-) (f (.) v))))))

GelMiaoGastwirth(s) == RSqrt(Var0(s)) (/) (RSqrt(Pi (/) 2) (.) MeanAbs(s (-) Median(s)))

MartinezIglewicz(s) ==
  With(s (-) Median(s), LAMBDA d : With((d (/) (Median(RSort(RAbs(d))) (.) 9)), LAMBDA z :
    LET q == One (-) Sq(z)
        sb2 == (RInt(Len(s)) (.) RSum(Sq(d) (.) Pw(q, 4))) (/) Sq(RSum(q (.) (One (-) (Sq(z) (.) 5))))
    IN (SumSq(d) (/) (Len(s) - 1)) (/) sb2))

DesgagneLafaye(s) == With((Centered(s) (/) RSqrt(Var0(s))), LAMBDA y :
  LET n == Len(s)
      r1 == D("0.18240929") (-) (Half (.) RMean(Sq(y) (.) RLog(RAbs(y))))
      r2 == D("0.5348223") (-) RMean(RLog(One (+) RAbs(y)))
      r3 == D("0.20981558") (-) RMean(RLog(RLog(D("2.71828182846") (+) RAbs(y))))
      row(a, b, c) == ((r1 (.) D(a)) (+) (r2 (.) D(b))) (+) (r3 (.) D(c))
  IN RInt(n) (.) (((row("1259.04213344", "-32040.69569026", "85065.77739473") (.) r1)
                   (+) (row("-32040.6956903", "918649.9005906", "-2425883.3443201") (.) r2))
                   (+) (row("85065.7773947", "-2425883.3443201", "6407749.8211208") (.) r3)))

Spiegelhalter(s) ==
  LET n == Len(s) k == n - 1 sd == RSqrt(Var1(s)) ex(a, b) == RPow(a, RRat(b, 1))
      u == (s[n] (-) s[1]) (/) sd
      g == RSum(RAbs(Centered(s))) (/) ((sd (.) RSqrt(RInt(n))) (.) RSqrt(RInt(n - 1)))
      e == RExp(One)
      cn == IF n < 150 THEN (Half (.) RExp(RLGamma(RInt(n + 1)) (/) k)) (/) n
            ELSE (RPow(Two (.) Pi, RRat(1, 2 * k)) (.) RPow((RInt(n) (.) RSqrt(RInt(n))) (/) e, RRat(1, k))) (/) (Two (.) e)
  IN RPow(ex(cn (.) u, -k) (+) ex(g, -k), RRat(1, k))

-----------------------------------------------------------------------------
(* L-moments and trimmed L-moments *)
HoskingClass(n) == IF n <= 25 THEN 1 ELSE IF n <= 50 THEN 2 ELSE 3
HoskingConsts == <<
  << <<"0.12383", "0.0088038", "0.0049295">>, <<"0.12321", "0.0040493", "0.0020802">>, <<"0.12291", "0.0019434", "0.00095785">> >>,
  << <<"0.067077", "0.0081391", "0.0042752">>, <<"0.064456", "0.0034657", "0.0015699">>, <<"0.063424", "0.0016064", "0.000681">> >>,
  << <<"0.044174", "0.008657", "0.0042066">>, <<"0.040389", "0.0033818", "0.0013301">>, <<"0.03903", "0.001512", "0.00054207">> >>,
  << <<"0.03318", "0.0095765", "0.0044609">>, <<"0.028224", "0.0033813", "0.0011823">>, <<"0.026645", "0.0014547", "0.00045107">> >> >>
\* the r-th sample L-moment with the t smallest and t largest values trimmed
RECURSIVE LTerm(_, _, _, _)
LTerm(n, r, t, k) == IF k = r THEN Const(n, Zero) ELSE
  LTerm(n, r, t, k + 1) (+) ((VBin(Iota0(n), r + t - 1 - k) (.) VBin(RInt(n) (-) RIota(n), t + k)) (.) (IF k % 2 = 0 THEN BinI(r - 1, k) ELSE -BinI(r - 1, k)))
LMom(s, r, t) == RDot(s, LTerm(Len(s), r, t, 0)) (/) (RBin(Len(s), r + 2 * t) (.) r)
Hosking(s, t) ==
  LET c == HoskingConsts[t + 1][HoskingClass(Len(s))] IN
  With(LMom(s, 2, t), LAMBDA l2 : (Sq(LMom(s, 3, t) (/) l2) (/) D(c[2])) (+) (Sq((LMom(s, 4, t) (/) l2) (-) D(c[1])) (/) D(c[3])))

-----------------------------------------------------------------------------
(* distances of characteristic functions, probability transforms *)
RECURSIVE PairExp(_, _, _)
PairExp(s, k, m2) == IF k < 2 THEN Zero ELSE
  PairExp(s, k - 1, m2) (+) RSum(RExp(RNeg(Sq(Sub(s, 1, k - 1) (-) s[k])) (/) (m2 (.) 2)))
EppsPulleyN(s) == With(Var0(s), LAMBDA m2 :
  (((One (+) (RN(s) (/) RSqrt(RInt(3)))) (+) ((Two (/) RN(s)) (.) PairExp(s, Len(s), m2)))
   (-) (RSqrt(Two) (.) RSum(RExp(RNeg(Sq(Centered(s))) (/) (m2 (.) 4))))))
GlenLeemisBarr(s) == With(NFit(s), LAMBDA u : LET n == Len(s) IN
  With(RSort([i \in 1..n |-> BetaI(RInt(i), RInt(n - i + 1), u[i])]), LAMBDA b :
    RInt(-n) (-) ((RDot(RRev(Odd(n)), RLog(b)) (+) RDot(Odd(n), RLog(One (-) b))) (/) n)))

-----------------------------------------------------------------------------
(* Brys, Hubert and Struyf's medcouple test *)
\* the medcouple: median (of an even number of values the smaller one) of the kernel over pairs around the median
MedCouple(x) ==
  LET n == Len(x) IN
  IF n < 3 THEN Zero ELSE With(Median(x), LAMBDA m :
    IF REq(x[n], m) THEN RInt(-1) ELSE IF REq(x[1], m) THEN One ELSE
    With([up |-> {i \in 1..n : m \preceq x[i]}, dn |-> {i \in 1..n : x[i] \preceq m}], LAMBDA w :
      LET k == Cardinality(w.up \cap w.dn)
          h1 == Cardinality(w.up)  h2 == Cardinality(w.dn)
          \* up sorted downwards: x[n + 1 - a]; down sorted downwards: x[h2 + 1 - b]
          ker(a, b) == LET xi == x[n + 1 - a] xj == x[h2 + 1 - b] IN
                       IF REq(xi, xj) THEN (LET g == h1 + 1 - a - b IN IF g > 0 THEN One ELSE IF g < 0 THEN RInt(-1) ELSE Zero)
                       ELSE ((xi (-) m) (+) (xj (-) m)) (/) (xi (-) xj)
      IN With(RSort([q \in 1..(h1 * h2) |-> ker((q - 1) \div h2 + 1, ((q - 1) % h2) + 1)]), LAMBDA v :
           v[h1 * h2 - ((h1 * h2) \div 2)])))
BrysHubertStruyf(s) ==
  LET n == Len(s) h == CeilDiv(n, 2)
      w == <<MedCouple(s), RNeg(MedCouple(Sub(s, 1, h))) (-) D("0.198828"), MedCouple(Sub(s, h + 1, n)) (-) D("0.198828")>>
      V == << <<"0.8571890822945882", "-0.1051268907484579", "0.105126890748458">>,
              <<"-0.1051268907484579", "0.3944817329840534", "-0.01109532299714422">>,
              <<"0.1051268907484579", "-0.01109532299714422", "0.3944817329840535">> >>
  IN With(w, LAMBDA v : RInt(n) (.) RDot(v, [i \in 1..3 |-> RDot([j \in 1..3 |-> D(V[i][j])], v)]))

-----------------------------------------------------------------------------
\* the smallest sample a statistic is defined for
NormalMin(c) == CASE c \in {"SKEW", "DAP", "ZQ", "ZQS", "HOSKING3", "DH"} -> 8 [] c = "HOSKING4" -> 10 [] c = "HOSKING2" -> 6
                  [] c \in {"KURTOSIS"} -> 5 [] OTHER -> 4
NormalStat(c, p, o, s) ==
  CASE c = "KS" -> KS(o.alt, NU(p, s))
    [] c = "CVM" -> CvM(NU(p, s))
    [] c = "AD" -> With(Studentised(s), LAMBDA z : AD(RLog(PhiCdf(z)), RLog(PhiCdf(RNeg(z)))))
    [] c = "LILLIE" -> KS("two", NFit(s))
    [] c = "ZWA" -> (RInt(10) (.) ZhangA(NFit(s))) (-) 32
    [] c = "ZWC" -> ZhangC(NFit(s))
    [] c = "GLB" -> GlenLeemisBarr(s)
    [] c = "SW" -> ShapiroWilk(s)
    [] c = "SF" -> ShapiroFrancia(s)
    [] c = "SWRG" -> SWRG(s)
    [] c = "FILLI" -> Filliben(s)
    [] c = "LG" -> Corr(Blom(Len(s), C38), s)
    [] c = "RJ" -> RyanJoiner(o, s)
    [] c = "CS" -> ChenShapiro(s)
    [] c = "ZQ" -> ZhangQ(s)
    [] c = "ZQS" -> ZhangQStar(s)
    [] c = "COIN" -> Coin(s)
    [] c = "D" -> DAgostino(s)
    [] c = "JB" -> JarqueBera(s)
    [] c = "SKEW" -> SkewTest(s)
    [] c = "KURTOSIS" -> KurtTest(s)
    [] c = "DAP" -> Sq(SkewTest(s)) (+) Sq(KurtTest(s))
    [] c = "DH" -> DoornikHansen(s)
    [] c = "RJB" -> RobustJB(s)
    [] c = "BS" -> BonettSeier(s)
    [] c = "BM1" -> BontempsMeddahi(s, 4)
    [] c = "BM2" -> BontempsMeddahi(s, 6)
    [] c = "CC1" -> CabanaCabana1(s)
    [] c = "CC2" -> CabanaCabana2(s)
    [] c = "GMG" -> GelMiaoGastwirth(s)
    [] c = "MI" -> MartinezIglewicz(s)
    [] c = "DLDMZEPD" -> DesgagneLafaye(s)
    [] c = "SH" -> Spiegelhalter(s)
    [] c = "HOSKING1" -> Hosking(s, 0)
    [] c = "HOSKING2" -> Hosking(s, 1)
    [] c = "HOSKING3" -> Hosking(s, 2)
    [] c = "HOSKING4" -> Hosking(s, 3)
    [] c = "EP" -> EppsPulleyN(s)
    [] c = "BHS" -> BrysHubertStruyf(s)
=============================================================================
