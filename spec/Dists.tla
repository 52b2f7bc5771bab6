------------------------------- MODULE Dists -------------------------------
(***************************************************************************)
(* The distribution functions of the families the library knows, with the  *)
(* parameters its descriptors declare.  A parameter assignment p is a      *)
(* function from parameter names to reals.                                 *)
(***************************************************************************)
EXTENDS Real64, TLC

\* 1 - exp(-x) and friends stay accurate for small x
OneMinusExp(x) == RNeg(RExpm1(RNeg(x)))

NormCdf(m, v, x) == PhiCdf((x (-) m) (/) RSqrt(v))
ExpCdf(lam, x) == IF x \preceq Zero THEN Zero ELSE OneMinusExp(lam (.) x)
\* Weibull with scale a and shape k
WeibullCdf(a, k, x) == IF x \preceq Zero THEN Zero ELSE OneMinusExp(RPow(x (/) a, k))
\* the exponentiated Weibull law (scipy's exponweib): ... to the power a
ExpWeibullCdf(a, k, x) == IF x \preceq Zero THEN Zero ELSE RPow(OneMinusExp(RPow(x, k)), a)
UniformCdf(a, b, x) == IF x \preceq a THEN Zero ELSE IF b \preceq x THEN One ELSE (x (-) a) (/) (b (-) a)
StudentCdf(df, x) == TCdf(df, x)
GammaCdf(al, be, x) == IF x \preceq Zero THEN Zero ELSE GammaP(al, be (.) x)
BetaCdf(a, b, x) == IF x \preceq Zero THEN Zero ELSE IF One \preceq x THEN One ELSE BetaI(a, b, x)
\* log-normal: ln x is normal with mean mu and standard deviation s
LogNormCdf(mu, s, x) == IF x \preceq Zero THEN Zero ELSE PhiCdf((RLog(x) (-) mu) (/) s)
CauchyCdf(t, s, x) == Half (+) (RAtan((x (-) t) (/) s) (/) Pi)
Chi2Cdf(df, x) == IF x \preceq Zero THEN Zero ELSE GammaP(df (/) Two, x (/) Two)
GompertzCdf(eta, b, x) == IF x \preceq Zero THEN Zero ELSE OneMinusExp(eta (.) RExpm1(x (/) b))
GumbelCdf(mu, be, x) == RExp(RNeg(RExp(RNeg((x (-) mu) (/) be))))
\* inverse Gaussian with mean mu and shape lam
InvGaussCdf(mu, lam, x) ==
  IF x \preceq Zero THEN Zero
  ELSE LET r == RSqrt(lam (/) x) y == x (/) mu IN
       PhiCdf(r (.) (y (-) One)) (+) (RExp((Two (.) lam) (/) mu) (.) PhiCdf(RNeg(r (.) (y (+) One))))
LaplaceCdf(t, s, x) ==
  LET z == (x (-) t) (/) s IN IF z \prec Zero THEN Half (.) RExp(z) ELSE One (-) (Half (.) RExp(RNeg(z)))
LogisticCdf(t, s, x) == One (/) (One (+) RExp(RNeg((x (-) t) (/) s)))
\* contaminated normal: with probability p from N(a, b^2), otherwise from N(0, 1)
ContamCdf(p, a, b, x) == (p (.) PhiCdf((x (-) a) (/) b)) (+) ((One (-) p) (.) PhiCdf(x))
RiceCdf(nu, sigma, x) == IF x \preceq Zero THEN Zero ELSE RiceStdCdf(nu (/) sigma, x (/) sigma)
\* normal with the given mean and variance, truncated to [a, b]
TruncNormCdf(m, v, a, b, x) ==
  IF x \preceq a THEN Zero ELSE IF b \preceq x THEN One
  ELSE LET F(y) == NormCdf(m, v, y) IN (F(x) (-) F(a)) (/) (F(b) (-) F(a))
\* Tukey lambda through its quantile function (lam # 0)
TukeyQ(lam, u) == (RPow(u, lam) (-) RPow(One (-) u, lam)) (/) lam
RECURSIVE TukeyBisect(_, _, _, _, _)
TukeyBisect(lam, x, lo, hi, k) ==
  IF k = 0 THEN lo
  ELSE LET m == (lo (+) hi) (/) Two IN
       IF TukeyQ(lam, m) \preceq x THEN TukeyBisect(lam, x, m, hi, k - 1) ELSE TukeyBisect(lam, x, lo, m, k - 1)
TukeyCdf(lam, x) == TukeyBisect(lam, x, Zero, One, 45)

Families == {"normal", "exponential", "weibull", "uniform", "student", "gamma", "beta", "log_normal", "cauchy",
             "chi_2", "gompertz", "gumbel", "inv_gauss", "laplace", "lo_con_normal", "logistic", "mix_con_normal",
             "rice", "scale_con_normal", "trunc_normal", "tukey"}

\* parameters of the generator of each family
GenParams(d) ==
  CASE d = "normal" -> {"mean", "var"} [] d = "exponential" -> {"lam"} [] d = "weibull" -> {"a", "k"}
    [] d = "uniform" -> {"a", "b"} [] d = "student" -> {"df"} [] d = "gamma" -> {"alfa", "beta"}
    [] d = "beta" -> {"a", "b"} [] d = "log_normal" -> {"mu", "s"} [] d = "cauchy" -> {"t", "s"}
    [] d = "chi_2" -> {"df"} [] d = "gompertz" -> {"eta", "b"} [] d = "gumbel" -> {"mu", "beta"}
    [] d = "inv_gauss" -> {"mu", "lam"} [] d = "laplace" -> {"t", "s"} [] d = "lo_con_normal" -> {"p", "a"}
    [] d = "logistic" -> {"t", "s"} [] d = "mix_con_normal" -> {"p", "a", "b"} [] d = "rice" -> {"nu", "sigma"}
    [] d = "scale_con_normal" -> {"p", "b"} [] d = "trunc_normal" -> {"mean", "var", "a", "b"} [] d = "tukey" -> {"lam"}

Cdf(d, p, x) ==
  CASE d = "normal" -> NormCdf(p["mean"], p["var"], x)
    [] d = "exponential" -> ExpCdf(p["lam"], x)
    [] d = "weibull" -> ExpWeibullCdf(p["a"], p["k"], x)  \* as the generator documents
    [] d = "uniform" -> UniformCdf(p["a"], p["b"], x)
    [] d = "student" -> StudentCdf(p["df"], x)
    [] d = "gamma" -> GammaCdf(p["alfa"], p["beta"], x)
    [] d = "beta" -> BetaCdf(p["a"], p["b"], x)
    [] d = "log_normal" -> LogNormCdf(p["mu"], p["s"], x)
    [] d = "cauchy" -> CauchyCdf(p["t"], p["s"], x)
    [] d = "chi_2" -> Chi2Cdf(p["df"], x)
    [] d = "gompertz" -> GompertzCdf(p["eta"], p["b"], x)
    [] d = "gumbel" -> GumbelCdf(p["mu"], p["beta"], x)
    [] d = "inv_gauss" -> InvGaussCdf(p["mu"], p["lam"], x)
    [] d = "laplace" -> LaplaceCdf(p["t"], p["s"], x)
    [] d = "lo_con_normal" -> ContamCdf(p["p"], p["a"], One, x)
    [] d = "logistic" -> LogisticCdf(p["t"], p["s"], x)
    [] d = "mix_con_normal" -> ContamCdf(p["p"], p["a"], p["b"], x)
    [] d = "rice" -> RiceCdf(p["nu"], p["sigma"], x)
    [] d = "scale_con_normal" -> ContamCdf(p["p"], Zero, p["b"], x)
    [] d = "trunc_normal" -> TruncNormCdf(p["mean"], p["var"], p["a"], p["b"], x)
    [] d = "tukey" -> TukeyCdf(p["lam"], x)

\* two-sided Kolmogorov distance between a sorted sample and a distribution function, from its sorted values u there
KsOf(u) == LET n == Len(u) IN RMaxOf([i \in 1..(2 * n) |-> IF i <= n THEN RRat(i, n) (-) u[i] ELSE u[i - n] (-) RRat(i - n - 1, n)])
KsDistance(s, F(_)) == With([i \in 1..Len(s) |-> F(s[i])], KsOf)
=============================================================================
