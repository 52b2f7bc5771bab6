------------------------------ MODULE Decision ------------------------------
(***************************************************************************)
(* Turning a limit distribution and a statistic into a decision.           *)
(* lim is a non-empty sequence of reals (Real64), t the statistic, a the   *)
(* significance level, alt one of "left", "right", "two_tailed".           *)
(***************************************************************************)
EXTENDS Real64, FiniteSets

Count(lim, t) == Cardinality({i \in 1..Len(lim) : lim[i] \preceq t})
\* fraction of simulated values <= t
Frac(lim, t) == RRat(Count(lim, t), Len(lim))

PValue(alt, lim, t) ==
  LET f == Frac(lim, t) IN
  CASE alt = "left" -> f
    [] alt = "right" -> One (-) f
    [] OTHER -> Two (.) RMin2(f, One (-) f)

\* quantile with linear interpolation between order statistics, every value
\* counted as often as it occurs (s is the sorted sequence)
RankBelow(s, q) == LET k == RFloor(RInt(Len(s) - 1) (.) q)   \* order statistics below the quantile
               IN IF k < 0 THEN 0 ELSE IF k > Len(s) - 1 THEN Len(s) - 1 ELSE k
RankAt(s, i) == s[IF i < 1 THEN 1 ELSE IF i > Len(s) THEN Len(s) ELSE i]
QuantileSorted(s, q) ==
  LET lo == RankBelow(s, q)
      w == (RInt(Len(s) - 1) (.) q) (-) RInt(lo)
  IN s[lo + 1] (+) (w (.) (RankAt(s, lo + 2) (-) s[lo + 1]))
\* the order of magnitude of the values a quantile is interpolated between
QuantileScale(s, q) == RMaxOf(RAbs([j \in 1..4 |-> RankAt(s, RankBelow(s, q) + j - 1)]))
Quantile(lim, q) == QuantileSorted(RSort(lim), q)

CriticalValues(alt, lim, a) ==
  CASE alt = "left" -> <<Quantile(lim, a)>>
    [] alt = "right" -> <<Quantile(lim, One (-) a)>>
    [] OTHER -> <<Quantile(lim, a (/) Two), Quantile(lim, One (-) (a (/) Two))>>

QuantileLevels(alt, a) == CASE alt = "left" -> <<a>> [] alt = "right" -> <<One (-) a>> [] OTHER -> <<a (/) Two, One (-) (a (/) Two)>>
\* agreement up to rounding, relative to the values around the quantile
SameCritical(alt, lim, a, got) ==
  LET s == RSort(lim) q == QuantileLevels(alt, a)
  IN Len(got) = Len(q) /\ \A i \in 1..Len(q) :
       RFinite(got[i]) /\ RAbs(got[i] (-) QuantileSorted(s, q[i])) \preceq (RDec("1e-9") (.) QuantileScale(s, q[i]))

\* strictly outside the acceptance region
Outside(alt, cv, t) ==
  CASE alt = "left" -> t \prec cv[1]
    [] alt = "right" -> cv[1] \prec t
    [] OTHER -> t \prec cv[1] \/ cv[2] \prec t

Alts == {"left", "right", "two_tailed"}
=============================================================================
