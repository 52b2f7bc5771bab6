--------------------------- MODULE CoreFunctions ---------------------------
(***************************************************************************)
(* The building blocks in core.distributions: the density and distribution *)
(* functions, the samplers and the sample moments, as functions of their   *)
(* documented parameters with their documented defaults.                   *)
(***************************************************************************)
EXTENDS Dists, FiniteSets

Functions == {"cdf_norm", "pdf_norm", "cdf_expon", "generate_weibull_cdf", "generate_weibull_logcdf", "generate_weibull_logsf"}
FnDefault(f) ==
  CASE f \in {"cdf_norm", "pdf_norm"} -> [mean |-> Zero, var |-> One]
    [] f = "cdf_expon" -> [lam |-> One]
    [] OTHER -> [a |-> One, k |-> RInt(5)]
\* given parameters over the defaults
Over(given, def) == [x \in DOMAIN def |-> IF x \in DOMAIN given THEN given[x] ELSE def[x]]

NormPdf(m, v, x) == RExp(RNeg(Sq(x (-) m) (/) (Two (.) v))) (/) RSqrt((Two (.) Pi) (.) v)
\* ln((1 - exp(-x^k))^a)
WeibullLogCdf(a, k, x) == a (.) RLog(OneMinusExp(RPow(x, k)))
\* ln(1 - (1 - exp(-x^k))^a), from the logarithm of the distribution function
WeibullLogSf(a, k, x) ==
  IF x \preceq Zero THEN Zero
  ELSE IF REq(a, One) THEN RNeg(RPow(x, k))
  ELSE RLog(OneMinusExp(RNeg(a (.) RLog1p(RNeg(RExp(RNeg(RPow(x, k))))))))
Fn(f, p, x) ==
  CASE f = "cdf_norm" -> NormCdf(p["mean"], p["var"], x)
    [] f = "pdf_norm" -> NormPdf(p["mean"], p["var"], x)
    [] f = "cdf_expon" -> ExpCdf(p["lam"], x)
    [] f = "generate_weibull_cdf" -> ExpWeibullCdf(p["a"], p["k"], x)
    [] f = "generate_weibull_logcdf" -> WeibullLogCdf(p["a"], p["k"], x)
    [] f = "generate_weibull_logsf" -> WeibullLogSf(p["a"], p["k"], x)

\* samplers: family and documented defaults
SamplerFamily == [generate_norm |-> "normal", generate_expon |-> "exponential", generate_weibull |-> "weibull",
  generate_uniform |-> "uniform", generate_t |-> "student", generate_gamma |-> "gamma", generate_beta |-> "beta",
  generate_lognorm |-> "log_normal", generate_cauchy |-> "cauchy", generate_chi2 |-> "chi_2", generate_gompertz |-> "gompertz",
  generate_gumbel |-> "gumbel", generate_invgauss |-> "inv_gauss", generate_laplace |-> "laplace",
  generate_lo_con_norm |-> "lo_con_normal", generate_logistic |-> "logistic", generate_mix_con_norm |-> "mix_con_normal",
  generate_rice |-> "rice", generate_scale_con_norm |-> "scale_con_normal", generate_truncnorm |-> "trunc_normal",
  generate_tukey |-> "tukey"]
SamplerDefault(d) ==
  CASE d = "normal" -> [mean |-> Zero, var |-> One] [] d = "exponential" -> [lam |-> One]
    [] d = "weibull" -> [a |-> One, k |-> RInt(5)] [] d = "uniform" -> [a |-> Zero, b |-> One]
    [] d = "student" -> [df |-> Two] [] d = "gamma" -> [alfa |-> One, beta |-> One] [] d = "beta" -> [a |-> One, b |-> One]
    [] d = "log_normal" -> [s |-> One, mu |-> Zero] [] d = "cauchy" -> [t |-> Half, s |-> Half] [] d = "chi_2" -> [df |-> Two]
    [] d = "gompertz" -> [eta |-> One, b |-> One] [] d = "gumbel" -> [mu |-> Zero, beta |-> One]
    [] d = "inv_gauss" -> [mu |-> One, lam |-> One] [] d = "laplace" -> [t |-> Zero, s |-> One]
    [] d = "lo_con_normal" -> [p |-> Half, a |-> Zero] [] d = "logistic" -> [t |-> Zero, s |-> One]
    [] d = "mix_con_normal" -> [p |-> Half, a |-> Zero, b |-> One] [] d = "rice" -> [nu |-> Zero, sigma |-> One]
    [] d = "scale_con_normal" -> [p |-> Half, b |-> Zero]
    [] d = "trunc_normal" -> [mean |-> Zero, var |-> One, a |-> RInt(-10), b |-> RInt(10)] [] d = "tukey" -> [lam |-> Two]

\* the law of a sampler in the parameters of Dists: the inverse Gaussian sampler takes scipy's shape (mean over scale)
LawParams(f, p) == IF f = "generate_invgauss" THEN [mu |-> p["mu"] (.) p["lam"], lam |-> p["lam"]] ELSE p

\* mean of the k-th powers of the deviations from c
Moment(xs, k, c) == RSum([i \in 1..Len(xs) |-> PowI(xs[i] (-) c, k)]) (/) RInt(Len(xs))
CentralMoment(xs, k) == With(RMean(xs), LAMBDA m : Moment(xs, k, m))
=============================================================================
