------------------------------ MODULE Statistics ------------------------------
(***************************************************************************)
(* All goodness-of-fit statistics of the library that are not graph        *)
(* statistics: the value of the statistic with short code c of family d    *)
(* for the null parameters p and tuning parameters o, as a function of the *)
(* order statistics s of the sample.                                       *)
(***************************************************************************)
EXTENDS StatCommon
N == INSTANCE NormalStats
E == INSTANCE ExponentialStats
W == INSTANCE WeibullStats
B == INSTANCE BoundedStats
LN == INSTANCE LogNormalStats

Value(d, c, p, o, s) ==
  CASE d = "normal" -> N!NormalStat(c, p, o, s)
    [] d = "exponential" -> E!ExponentialStat(c, p, o, s)
    [] d = "weibull" -> W!WeibullStat(c, p, o, s)
    [] d = "uniform" -> B!UniformStat(c, p, o, s)
    [] d = "beta" -> B!BetaStat(c, p, o, s)
    [] d = "gamma" -> B!GammaStat(c, p, o, s)
    [] d = "student" -> B!StudentStat(c, p, o, s)
    [] d = "log_normal" -> LN!LogNormalStat(c, p, o, s)

\* agreement asked of a computed value: 1e-9, less where the statistic subtracts nearly equal terms or the
\* library itself searches or integrates numerically
Tolerance(d, c) ==
  CASE c = "GLB" -> D("1e-6")
    [] c \in {"ZWC", "DLDMZEPD", "ZHANG_ZC", "MT"} -> D("1e-7")
    [] d = "weibull" /\ c = "SPP" -> D("1e-4")
    [] d = "weibull" /\ c = "AD" -> D("1e-6")
    [] c = "KL_INT" -> D("0.01")
    [] OTHER -> D("1e-9")

\* the logarithm of a spacing of null probabilities that is zero (or not separated in double precision)
Undefined(d, c, p, xs) ==
  d = "gamma" /\ c = "MOR" /\ \E g \in {TLCEval(B!Gaps(Zero, B!GU(p, RSort(xs)), One))} : \E i \in 1..Len(g) : g[i] \preceq D("1e-15")

Agrees(d, c, p, o, s, val) ==
  IF d = "beta" /\ c = "MODE" THEN \E v \in B!ModeValues(p, s) : Close(val, v)
  ELSE IF c = "KL_SUP"
  \* close to r = 0 the library's ratio is rounding noise, which can only raise the supremum
  THEN \E hi \in {TLCEval(LN!KlSup(s, D("0.05")))} : \E all \in {TLCEval(LN!KlSup(s, Zero))} :
         IF (all (.) D("1.5")) \preceq hi \/ (hi (.) D("0.8") \preceq val /\ all (.) D("3") \preceq hi) THEN CloseTol(val, hi, D("1e-6"))
         ELSE (hi (.) D("0.999999")) \preceq val
  ELSE CloseTol(val, Value(d, c, p, o, s), Tolerance(d, c))
=============================================================================
