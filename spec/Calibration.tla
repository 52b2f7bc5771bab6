---------------------------- MODULE Calibration ----------------------------
(***************************************************************************)
(* A test of a simple null hypothesis is calibrated when the samples       *)
(* simulated for it follow the null law its statistic was built for.       *)
(* A statistic is built with constructor parameters g (NullCdf below); its *)
(* hypothesis names them for a generator (HypothesisOf); the generator     *)
(* draws from Dists!Cdf.  The design obligation is that the diagram        *)
(* commutes, for every family, parameter row and point.                    *)
(***************************************************************************)
EXTENDS Dists

\* the law the constructor parameters of a statistic of family d stand for
NullCdf(d, g, x) ==
  CASE d = "normal" -> NormCdf(g["mean"], g["var"], x)
    [] d = "exponential" -> ExpCdf(g["lam"], x)
    [] d = "weibull" -> ExpWeibullCdf(g["a"], g["k"], x)
    [] d = "uniform" -> UniformCdf(g["a"], g["b"], x)
    [] d = "student" -> StudentCdf(g["df"], (x (-) g["loc"]) (/) g["scale"])
    [] d = "gamma" -> GammaCdf(g["alpha"], g["beta"], x)
    [] d = "beta" -> BetaCdf(g["alpha"], g["beta"], x)
    [] d = "log_normal" -> LogNormCdf(RLog(g["scale"]), g["s"], x)

\* the same parameters in the generator's terms
HypothesisOf(d, g) ==
  CASE d = "normal" -> [mean |-> g["mean"], var |-> g["var"]] [] d = "exponential" -> [lam |-> g["lam"]]
    [] d = "weibull" -> [a |-> g["a"], k |-> g["k"]] [] d = "uniform" -> [a |-> g["a"], b |-> g["b"]]
    [] d = "student" -> [df |-> g["df"]]
    [] d = "gamma" -> [alfa |-> g["alpha"], beta |-> g["beta"]]
    [] d = "beta" -> [a |-> g["alpha"], b |-> g["beta"]]
    [] d = "log_normal" -> [s |-> g["s"], mu |-> RLog(g["scale"])]
\* the Student generator has no location and scale: the hypothesis cannot say them
Expressible(d, g) == d # "student" \/ (REq(g["loc"], Zero) /\ REq(g["scale"], One))

TestedFamilies == {"normal", "exponential", "weibull", "uniform", "student", "gamma", "beta", "log_normal"}
NullNames(d) ==
  CASE d = "normal" -> {"mean", "var"} [] d = "exponential" -> {"lam"} [] d = "weibull" -> {"a", "k"}
    [] d = "uniform" -> {"a", "b"} [] d = "student" -> {"df", "loc", "scale"} [] d = "gamma" -> {"alpha", "beta"}
    [] d = "beta" -> {"alpha", "beta"} [] d = "log_normal" -> {"s", "scale"}
=============================================================================
