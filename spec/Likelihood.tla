----------------------------- MODULE Likelihood -----------------------------
(***************************************************************************)
(* Maximised likelihoods.  For a family f and a sample x (m: trials of a   *)
(* binomial observation) Answer(f, x, m) is one of                         *)
(*   [kind |-> "zero"]            x is outside the support, or degenerate  *)
(*                                where the library says so                *)
(*   [kind |-> "inf"]             degenerate, unbounded likelihood         *)
(*   [kind |-> "log", v |-> r]    log likelihood at the maximum            *)
(*   [kind |-> "between", lo, hi] bounds for it (families whose maximum    *)
(*                                can lie at infinity)                     *)
(* LogLik(f, x, m, t) is the log likelihood at parameters t.               *)
(***************************************************************************)
EXTENDS Real64, TLC, FiniteSets
D6 == RDec("1e-6")
Big6 == RDec("1e6")
Fill(v, n) == [i \in 1..n |-> v]
Ones(n) == Fill(One, n)
\* the zero in [lo, hi] of a function negative before it and positive after it
RECURSIVE Bisect(_, _, _, _)
Bisect(F(_), lo, hi, k) == IF k = 0 THEN (lo (+) hi) (/) 2
  ELSE With((lo (+) hi) (/) 2, LAMBDA c : IF F(c) \prec Zero THEN Bisect(F, c, hi, k - 1) ELSE Bisect(F, lo, c, k - 1))
LBeta(a, b) == (RLGamma(a) (+) RLGamma(b)) (-) RLGamma(a (+) b)

Families == {"uniform", "normal", "lognormal", "exponential", "weibull", "gamma", "beta", "cauchy", "chi_squared", "t_distribution", "fisher", "rayleigh",
  "wigner", "pareto", "laplace", "discrete_uniform", "bernoulli", "binomial", "poisson", "geometric"}

\* --- the log likelihood of a sample ----------------------------------------------
LogLik(f, x, m, t) ==
  LET n == RInt(Len(x)) IN
  CASE f = "uniform" -> RNeg(n (.) RLog(t.b (-) t.a))
    [] f = "normal" -> RNeg(((n (.) RLog(Two (.) Pi (.) t.v)) (+) (RSum(Sq(x (-) t.m)) (/) t.v)) (/) 2)
    [] f = "lognormal" -> RNeg(((n (.) RLog(Two (.) Pi (.) t.v)) (+) (RSum(Sq(RLog(x) (-) t.m)) (/) t.v)) (/) 2) (-) RSum(RLog(x))
    [] f = "exponential" -> (n (.) RLog(t.l)) (-) (t.l (.) RSum(x))
    [] f = "weibull" -> ((n (.) RLog(t.k (/) t.s)) (+) ((t.k (-) 1) (.) (RSum(RLog(x)) (-) (n (.) RLog(t.s))))) (-) RSum(RPow(x (/) t.s, t.k))
    [] f \in {"gamma", "chi_squared"} -> (((t.a (-) 1) (.) RSum(RLog(x))) (-) (RSum(x) (/) t.s)) (-) (n (.) (RLGamma(t.a) (+) (t.a (.) RLog(t.s))))
    [] f = "beta" -> (((t.a (-) 1) (.) RSum(RLog(x))) (+) ((t.b (-) 1) (.) RSum(RLog(One (-) x)))) (-) (n (.) LBeta(t.a, t.b))
    [] f = "cauchy" -> RNeg(RSum(RLog((Sq((x (-) t.m) (/) t.s) (+) 1))) (+) (n (.) RLog(Pi (.) t.s)))
    [] f = "t_distribution" -> (n (.) ((RLGamma((t.d (+) 1) (/) 2) (-) RLGamma(t.d (/) 2)) (-) (RLog(Pi (.) t.d (.) Sq(t.s)) (/) 2)))
                       (-) (((t.d (+) 1) (/) 2) (.) RSum(RLog1p(Sq((x (-) t.m) (/) t.s) (/) t.d)))
    \* x / (s b / a) beta prime (a, b), a and b half the degrees of freedom
    [] f = "fisher" -> ((((t.a (-) 1) (.) RSum(RLog(x (.) t.r))) (-) ((t.a (+) t.b) (.) RSum(RLog1p(x (.) t.r)))) (+) (n (.) RLog(t.r))) (-) (n (.) LBeta(t.a, t.b))
    [] f = "rayleigh" -> (RSum(RLog(x)) (-) (n (.) RLog(Sq(t.s)))) (-) (RSum(Sq(x)) (/) (Two (.) Sq(t.s)))
    [] f = "wigner" -> (n (.) RLog(Two (/) (Pi (.) Sq(t.r)))) (+) (RSum(RLog(Sq(t.r) (-) Sq(x))) (/) 2)
    [] f = "pareto" -> ((n (.) RLog(t.a)) (+) (n (.) t.a (.) RLog(t.m))) (-) ((t.a (+) 1) (.) RSum(RLog(x)))
    [] f = "laplace" -> RNeg((n (.) RLog(Two (.) t.b)) (+) (RSum(RAbs(x (-) t.m)) (/) t.b))
    [] f = "discrete_uniform" -> RNeg(n (.) RLog((t.b (-) t.a) (+) 1))
    [] f \in {"bernoulli", "binomial"} ->
         LET c == IF f = "bernoulli" THEN One ELSE RInt(m) IN
         RSum(((RLGamma(c (+) 1) (-) RLGamma(x (+) 1)) (-) RLGamma((c (-) x) (+) 1)) (+) (x (.) RLog(t.p)) (+) ((c (-) x) (.) RLog1p(RNeg(t.p))))
    [] f = "poisson" -> ((RSum(x) (.) RLog(t.l)) (-) (n (.) t.l)) (-) RSum(RLGamma(x (+) 1))
    [] f = "geometric" -> (n (.) RLog(t.p)) (+) ((RSum(x) (-) n) (.) RLog1p(RNeg(t.p)))

\* --- the parameters of the maximum -------------------------------------------------
GammaShape(x) == With(RLog(RMean(x)) (-) RMean(RLog(x)), LAMBDA g :
  RExp(Bisect(LAMBDA u : With(RExp(u), LAMBDA a : (RDigamma(a) (-) u) (+) g), RInt(-20), RInt(40), 70)))
WeibullScore(x, k) == With(RPow(x, k), LAMBDA w : (((RDot(w, RLog(x)) (/) RSum(w)) (-) (One (/) k)) (-) RMean(RLog(x))))
BetaB(a, lq) == Bisect(LAMBDA b : (RDigamma(b) (-) RDigamma(a (+) b)) (-) lq, D6, Big6, 70)
CauchyScale(x, m) == With(Sq(x (-) m), LAMBDA q : Bisect(LAMBDA s : RMean(Sq(s) (/) (q (+) Sq(s))) (-) Half, Zero, RMaxOf(RAbs(x (-) m)), 60))
Median(s) == LET n == Len(s) IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE (s[n \div 2] (+) s[n \div 2 + 1]) (/) 2
Best(f, x, m) ==
  LET n == RInt(Len(x)) IN
  CASE f \in {"uniform", "discrete_uniform"} -> [a |-> RMinOf(x), b |-> RMaxOf(x)]
    [] f = "normal" -> With(RMean(x), LAMBDA c : [m |-> c, v |-> RMean(Sq(x (-) c))])
    [] f = "lognormal" -> With(RLog(x), LAMBDA y : With(RMean(y), LAMBDA c : [m |-> c, v |-> RMean(Sq(y (-) c))]))
    [] f = "exponential" -> [l |-> One (/) RMean(x)]
    [] f = "weibull" -> With(Bisect(LAMBDA k : WeibullScore(x, k), RRat(1, 10), RInt(10), 60), LAMBDA k : [k |-> k, s |-> RPow(RMean(RPow(x, k)), One (/) k)])
    [] f \in {"gamma", "chi_squared"} -> With(GammaShape(x), LAMBDA a : [a |-> a, s |-> RMean(x) (/) a])
    [] f = "beta" -> With(RMean(RLog(x)), LAMBDA lp : With(RMean(RLog(One (-) x)), LAMBDA lq :
         With(Bisect(LAMBDA a : (RDigamma(a) (-) RDigamma(a (+) BetaB(a, lq))) (-) lp, D6, Big6, 60), LAMBDA a : [a |-> a, b |-> BetaB(a, lq)])))
    [] f = "cauchy" -> With(Bisect(LAMBDA c : With(CauchyScale(x, c), LAMBDA s : RSum((c (-) x) (/) (Sq(x (-) c) (+) Sq(s)))), RMinOf(x), RMaxOf(x), 55),
                            LAMBDA c : [m |-> c, s |-> CauchyScale(x, c)])
    [] f = "rayleigh" -> [s |-> RSqrt(RMean(Sq(x)) (/) 2)]
    \* the score of r^2 / M^2 falls from +oo at 1 to at most 0 at 2
    [] f = "wigner" -> With(Sq(RMaxOf(RAbs(x))), LAMBDA w : With(Sq(x) (/) w, LAMBDA q :
         [r |-> RSqrt(w (.) Bisect(LAMBDA z : Two (-) RMean(z (/) (z (-) q)), One, Two, 60))]))
    [] f = "pareto" -> With(RMinOf(x), LAMBDA c : [m |-> c, a |-> One (/) RMean(RLog(x (/) c))])
    [] f = "laplace" -> With(Median(RSort(x)), LAMBDA c : [m |-> c, b |-> RMean(RAbs(x (-) c))])
    [] f = "bernoulli" -> [p |-> RMean(x)]
    [] f = "binomial" -> [p |-> RMean(x) (/) m]
    [] f = "poisson" -> [l |-> RMean(x)]
    [] f = "geometric" -> [p |-> One (/) RMean(x)]

\* where a search for the Cauchy maximum starts: the median and half the interquartile range
Quartile(s, k) == With(k * (Len(s) - 1), LAMBDA j : IF j % 4 = 0 THEN s[j \div 4 + 1]
                    ELSE s[j \div 4 + 1] (+) (RRat(j % 4, 4) (.) (s[j \div 4 + 2] (-) s[j \div 4 + 1])))
CauchyStart(x) == With(RSort(x), LAMBDA s : LogLik("cauchy", x, 0, [m |-> Median(s), s |-> (Quartile(s, 3) (-) Quartile(s, 1)) (/) 2]))

\* --- Student and Fisher: the supremum can be at infinite degrees of freedom ----------
RECURSIVE TFit(_, _, _, _)
TFit(x, d, t, k) == IF k = 0 THEN [d |-> d, m |-> t.m, s |-> RSqrt(t.v)]
  ELSE With((d (+) 1) (/) ((Sq(x (-) t.m) (/) t.v) (+) d), LAMBDA w : With(RDot(w, x) (/) RSum(w), LAMBDA c :
         With([m |-> c, v |-> RMean(w (.) Sq(x (-) c))], LAMBDA u : TFit(x, d, u, k - 1))))
TGrid == <<"0.7", "1", "1.4", "2", "3", "4", "6", "10", "20", "60", "1000", "100000">>
TProfile(x, i) == With(TFit(x, RDec(TGrid[i]), [m |-> Median(RSort(x)), v |-> RMean(Sq(x (-) RMean(x)))], 120), LAMBDA t : LogLik("t_distribution", x, 0, t))
TLo(x) == With([i \in {2, 5, 12} |-> TProfile(x, i)], LAMBDA v : RMinOf(<<v[2], v[5], v[12]>>))
\* for degrees of freedom near 0 the likelihood is unbounded (a spike at an observation): no upper bound when the profile rises towards 0
THi(x) == With([i \in 1..Len(TGrid) |-> TLCEval(TProfile(x, i))], LAMBDA v : IF v[2] \prec (v[1] (+) 1) THEN Big6 ELSE RMaxOf(v))
\* scale for given shapes: the score of log r is increasing
FRate(x, a, b) == RExp(Bisect(LAMBDA u : With(RExp(u) (.) x, LAMBDA w : ((a (+) b) (.) RMean(w (/) (w (+) 1))) (-) a),
                              RNeg(RLog(RMaxOf(x)) (+) 15), RInt(15) (-) RLog(RMinOf(x)), 50))
FProfile(x, a, b) == LogLik("fisher", x, 0, [a |-> a, b |-> b, r |-> FRate(x, a, b)])
FGrid == [i \in 1..10 |-> RExp(RInt(i - 3))]
FHi(x) == RMaxOf([i \in 1..10 |-> TLCEval(RMaxOf([j \in 1..10 |-> TLCEval(FProfile(x, FGrid[i], FGrid[j]))]))])
Inverse(x) == One (/) x
FLo(x) == RMaxOf(<<LogLik("gamma", x, 0, Best("gamma", x, 0)), LogLik("gamma", Inverse(x), 0, Best("gamma", Inverse(x), 0)) (-) (RSum(RLog(x)) (.) 2)>>)

\* --- support and degenerate samples ------------------------------------------------
All(x, P(_)) == \A i \in 1..Len(x) : P(x[i])
Whole(v) == REq(RInt(RFloor(v)), v)
InSupport(f, x, m) ==
  CASE f \in {"lognormal", "weibull", "gamma", "chi_squared", "fisher", "pareto"} -> All(x, LAMBDA v : Zero \prec v)
    [] f \in {"exponential", "rayleigh"} -> All(x, LAMBDA v : Zero \preceq v)
    [] f = "beta" -> All(x, LAMBDA v : Zero \prec v /\ v \prec One)
    [] f = "bernoulli" -> All(x, LAMBDA v : REq(v, Zero) \/ REq(v, One))
    [] f = "binomial" -> All(x, LAMBDA v : Whole(v) /\ Zero \preceq v /\ v \preceq RInt(m))
    [] f = "poisson" -> All(x, LAMBDA v : Whole(v) /\ Zero \preceq v)
    [] f = "geometric" -> All(x, LAMBDA v : Whole(v) /\ One \preceq v)
    [] OTHER -> TRUE
Constant(x) == All(x, LAMBDA v : REq(v, x[1]))
IsAll(x, c) == All(x, LAMBDA v : REq(v, c))
Ties(x, v) == Cardinality({i \in 1..Len(x) : REq(x[i], v)})
Spread(x) == \A i \in 1..Len(x) : Ties(x, x[i]) = 1
Is(k) == [kind |-> k]
Log(v) == [kind |-> "log", v |-> v]
Answer(f, x, m) ==
  IF ~InSupport(f, x, m) THEN Is("zero")
  ELSE IF Constant(x) THEN
    CASE f \in {"uniform", "normal", "lognormal", "weibull", "gamma", "beta", "cauchy", "t_distribution", "fisher", "wigner"} -> Is("zero")
      [] f \in {"pareto", "laplace"} -> Is("inf")
      [] f = "chi_squared" -> Is("any")
      [] f = "rayleigh" -> IF IsAll(x, Zero) THEN Is("zero") ELSE Log(LogLik(f, x, m, Best(f, x, m)))
      [] f = "exponential" -> IF IsAll(x, Zero) THEN Is("zero") ELSE Log(LogLik(f, x, m, Best(f, x, m)))
      [] f = "bernoulli" -> Log(Zero)
      [] f = "binomial" -> IF IsAll(x, Zero) \/ IsAll(x, RInt(m)) THEN Log(Zero) ELSE Log(LogLik(f, x, m, Best(f, x, m)))
      [] f = "poisson" -> IF IsAll(x, Zero) THEN Log(Zero) ELSE Log(LogLik(f, x, m, Best(f, x, m)))
      [] f = "geometric" -> IF IsAll(x, One) THEN Log(Zero) ELSE Log(LogLik(f, x, m, Best(f, x, m)))
      [] OTHER -> Log(LogLik(f, x, m, Best(f, x, m)))
  ELSE CASE f = "cauchy" /\ (Len(x) < 3 \/ \E i \in 1..Len(x) : 2 * Ties(x, x[i]) >= Len(x)) -> Is("any")
         [] f = "t_distribution" /\ (Len(x) < 8 \/ ~Spread(x)) -> Is("any")
         [] f = "t_distribution" -> [kind |-> "between", lo |-> TLo(x) (-) RRat(3, 10), hi |-> THi(x) (+) RRat(1, 5)]
         [] f = "fisher" -> [kind |-> "between", lo |-> FLo(x) (-) RRat(6, 10), hi |-> RMax2(FHi(x), FLo(x)) (+) RRat(6, 5)]
         \* the search for the Weibull shape covers [0.1, 10]
         [] f = "weibull" -> IF Zero \prec WeibullScore(x, RRat(1, 10)) \/ WeibullScore(x, RInt(10)) \prec Zero THEN Is("zero") ELSE Log(LogLik(f, x, m, Best(f, x, m)))
         [] f = "rayleigh" -> IF \E i \in 1..Len(x) : REq(x[i], Zero) THEN Is("zero") ELSE Log(LogLik(f, x, m, Best(f, x, m)))
         [] OTHER -> Log(LogLik(f, x, m, Best(f, x, m)))

\* --- agreement of a computed likelihood with the answer -------------------------------
Searched == {"gamma", "beta", "cauchy", "chi_squared", "wigner", "weibull", "rayleigh"}
LogTolerance(f, n) == IF f \in Searched THEN RDec("1e-6") (.) (10 + n) ELSE RDec("1e-9") (.) (10 + n)
RECURSIVE Agrees(_, _, _, _)
Agrees(f, a, val, x) ==
  LET n == Len(x) IN
  CASE a.kind = "zero" -> REq(val, Zero)
    [] a.kind = "inf" -> ~RFinite(val) /\ Zero \prec val
    [] a.kind = "any" -> TRUE
    \* the simplex search for the Cauchy maximum can stop early, no lower than its start
    [] a.kind = "log" /\ f = "cauchy" -> Agrees(f, [kind |-> "between", hi |-> a.v (+) (D6 (.) (10 + n)),
         lo |-> RMax2(a.v (-) RRat(1, 5), RMin2(CauchyStart(x), a.v)) (-) (D6 (.) (10 + n))], val, x)
    [] a.kind = "log" -> IF RFinite(val) /\ Zero \prec val THEN RAbs(RLog(val) (-) a.v) \preceq (LogTolerance(f, n) (.) RMax2(One, RAbs(a.v)))
                         ELSE IF REq(val, Zero) THEN a.v \prec RInt(-700) ELSE ~RIsNaN(val) /\ RInt(700) \prec a.v
    [] a.kind = "between" -> IF RFinite(val) /\ Zero \prec val THEN a.lo \preceq RLog(val) /\ RLog(val) \preceq a.hi
                             ELSE IF REq(val, Zero) THEN a.lo \prec RInt(-700) ELSE ~RIsNaN(val) /\ RInt(700) \prec a.hi
Shown(a) == IF a.kind = "log" THEN "exp(" \o RStr(a.v) \o ")" ELSE IF a.kind = "between" THEN "between exp(" \o RStr(a.lo) \o ") and exp(" \o RStr(a.hi) \o ")" ELSE a.kind
=============================================================================
