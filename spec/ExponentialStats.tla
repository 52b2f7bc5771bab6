-------------------------- MODULE ExponentialStats --------------------------
(***************************************************************************)
(* The exponentiality statistics.  p: null parameter [lam]; o: tuning      *)
(* parameters (0: the default); s: the sample in increasing order.         *)
(***************************************************************************)
EXTENDS StatCommon

EU(p, s) == RNeg(RExpm1(RNeg(s (.) p.lam)))
Scaled(s) == s (/) RMean(s)
\* normalised spacings (n - i + 1)(x_i - x_(i-1)), x_0 = 0
NSpacings(s) == LET n == Len(s) IN (RInt(n + 1) (-) RIota(n)) (.) RDiff(<<Zero>> \o s)
\* exponential scores -ln(1 - i / (n + 1))
EScores(n) == RNeg(RLog(One (-) (RIota(n) (/) (n + 1))))
Hazen(n) == (RIota(n) (-) Half) (/) n
\* number of pairs / triples of indices with a property
Triples(n) == (1..n) \X (1..n) \X (1..n)

Ahsanullah(s) == LET n == Len(s) IN
  (RInt(Cardinality({t \in Triples(n) : RAbs(s[t[1]] (-) s[t[2]]) \prec s[t[3]]})
        - Cardinality({t \in Triples(n) : (RMin2(s[t[1]], s[t[2]]) (.) 2) \prec s[t[3]]})) (/) (RInt(n) (.) (n * n)))
Atkinson(o, s) ==
  RSqrt(RN(s)) (.) RAbs((RPow(RMean(Pw(s, o.p)), One (/) o.p) (/) RMean(s)) (-) RPow(RExp(RLGamma(o.p (+) 1)), One (/) o.p))
CoxOakes(s) == With(Scaled(s), LAMBDA y : RN(s) (+) RDot(RLog(y), One (-) y))
Deshpande(o, s) == LET n == Len(s) IN
  RRat(Cardinality({t \in (1..n) \X (1..n) : t[1] # t[2] /\ (o.b (.) s[t[2]]) \prec s[t[1]]}), n * (n - 1))
EppsPulleyE(s) == (RSqrt(RInt(48 * Len(s))) (.) RSum(RExp(RNeg(Scaled(s))) (-) Half)) (/) Len(s)
Epstein(s) == With(NSpacings(s), LAMBDA d : LET n == Len(s) IN
  (RInt(2 * n) (.) (RLog(RMean(d)) (-) RMean(RLog(d)))) (/) (One (+) RRat(n + 1, 6 * n)))
Frozini(s) == RSum(RAbs((One (-) RExp(RNeg(Scaled(s)))) (-) Hazen(Len(s)))) (/) RSqrt(RN(s))
Gini(s) == LET n == Len(s) IN
  RDot(RDiff(s), RIota(n - 1) (.) (RInt(n) (-) RIota(n - 1))) (/) (RSum(s) (.) (n - 1))
Gnedenko(o, s) == With(NSpacings(s), LAMBDA d : LET n == Len(s) r == IF o.r = 0 THEN RoundHalfEven(n, 2) ELSE o.r IN
  RMean(Sub(d, 1, r)) (/) RMean(Sub(d, r + 1, n)))
Harris(o, s) == With(NSpacings(s), LAMBDA d : LET n == Len(s) r == IF o.r = 0 THEN RoundHalfEven(n, 4) ELSE o.r IN
  RMean(Sub(d, 1, r) \o Sub(d, n - r + 1, n)) (/) RMean(Sub(d, r + 1, n - r)))
HollanderProschan(s) == LET n == Len(s) IN
  (RInt(2 * Cardinality({t \in Triples(n) : t[1] # t[2] /\ t[1] # t[3] /\ t[2] < t[3] /\ (s[t[2]] (+) s[t[3]]) \prec s[t[1]]})))
  (/) (RInt(n * (n - 1)) (.) (n - 2))
KimberMichael(s) == LET n == Len(s) arc(v) == (RAsin(RSqrt(v)) (.) 2) (/) Pi IN
  RMaxOf(RAbs(arc(Hazen(n)) (-) arc(RNeg(RExpm1(RNeg(Scaled(s)))))))
Kochar(s) == LET n == Len(s) q == One (-) (RIota(n) (/) (n + 1)) IN
  (RSqrt(RRat(108 * n, 17)) (.) RDot(((q (.) (One (-) RLog(q))) (.) 2) (-) 1, s)) (/) RSum(s)
Lorenz(o, s) == LET k == RFloor(RN(s) (.) o.p) IN RSum(Sub(s, 1, k)) (/) RSum(s)
MoranE(s) == RMean(RLog(Scaled(s))) (-) RDigamma(One)
Pietra(s) == RSum(RAbs(Centered(s))) (/) (RMean(s) (.) (2 * Len(s)))
ShapiroWilkE(s) == LET n == Len(s) IN (RInt(n) (.) Sq(RMean(s) (-) s[1])) (/) (RInt(n - 1) (.) SS(s))
\* Rossberg: the middle minus the smallest of every triple against the smallest of every pair
Rossberg(s) == LET n == Len(s) pairs == {t \in (1..n) \X (1..n) : t[1] < t[2]} IN
  With([h |-> RSum([i \in 1..n |-> With([j \in 1..n |-> IF i < j THEN RInt((n - j) * Cardinality({m \in 1..n : (s[j] (-) s[i]) \prec s[m]})) ELSE Zero],
                                       LAMBDA v : RSum(v))]),
        g |-> RInt(Cardinality({t \in pairs \X (1..n) : s[t[1][1]] \prec s[t[2]]}))],
    LAMBDA w : ((w.h (/) RBin(n, 3)) (-) (w.g (/) RBin(n, 2))) (/) n)
We(s) == LET n == Len(s) IN (Var0(s) (.) (n - 1)) (/) (Sq(RMean(s)) (.) (n * n))
WongWong(s) == s[Len(s)] (/) s[1]
HegazyGreen(p, s, k) == RMean(Pw(RAbs((s (.) p.lam) (-) EScores(Len(s))), k))

ExponentialMax(c) == CASE c \in {"AHS", "HP"} -> 14 [] c \in {"RS"} -> 12 [] c = "DSP" -> 30 [] OTHER -> 1000
ExponentialMin(c) == 4
ExponentialStat(c, p, o, s) ==
  CASE c = "KS" -> KS(o.alt, EU(p, s))
    [] c = "CVM" -> CvM(EU(p, s))
    [] c = "AHS" -> Ahsanullah(s)
    [] c = "ATK" -> Atkinson(o, s)
    [] c = "CO" -> CoxOakes(s)
    [] c = "DSP" -> Deshpande(o, s)
    [] c = "EP" -> EppsPulleyE(s)
    [] c = "EPS" -> Epstein(s)
    [] c = "FZ" -> Frozini(s)
    [] c = "GINI" -> Gini(s)
    [] c = "GD" -> Gnedenko(o, s)
    [] c = "HM" -> Harris(o, s)
    [] c = "HG1" -> HegazyGreen(p, s, 1)
    [] c = "HG2" -> HegazyGreen(p, s, 2)
    [] c = "HP" -> HollanderProschan(s)
    [] c = "KM" -> KimberMichael(s)
    [] c = "KC" -> Kochar(s)
    [] c = "LZ" -> Lorenz(o, s)
    [] c = "MN" -> MoranE(s)
    [] c = "PT" -> Pietra(s)
    [] c = "RS" -> Rossberg(s)
    [] c = "SW" -> ShapiroWilkE(s)
    [] c = "WE" -> We(s)
    [] c = "WW" -> WongWong(s)
=============================================================================
