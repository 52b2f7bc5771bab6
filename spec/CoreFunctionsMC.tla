-------------------------- MODULE CoreFunctionsMC --------------------------
(* The building blocks are mutually consistent on a grid of parameters and points. *)
EXTENDS CoreFunctions
VARIABLES f, p, x, h
vars == <<f, p, x, h>>
Grid == {RRat(i, 4) : i \in -6..12}
Params(g) == CASE g \in {"cdf_norm", "pdf_norm"} -> {[mean |-> m, var |-> v] : m \in {Zero, RInt(-1), RRat(3, 2)}, v \in {One, RRat(1, 4), RInt(3)}}
               [] g = "cdf_expon" -> {[lam |-> v] : v \in {Half, One, RInt(3)}}
               [] OTHER -> {[a |-> a, k |-> k] : a \in {Half, One, RInt(3)}, k \in {Half, One, RInt(5)}}
Init == f \in Functions /\ p \in Params(f) /\ x \in Grid /\ h \in {RRat(1, 8), One}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Y == x (+) h
Weibull == f \in {"generate_weibull_cdf", "generate_weibull_logcdf", "generate_weibull_logsf"}
\* distribution functions rise from 0 to 1
Monotone == f # "pdf_norm" /\ f # "generate_weibull_logsf" /\ (~Weibull \/ Zero \prec x) => Fn(f, p, x) \preceq Fn(f, p, Y)
InUnit == f \in {"cdf_norm", "cdf_expon", "generate_weibull_cdf"} => Zero \preceq Fn(f, p, x) /\ Fn(f, p, x) \preceq One
\* the three Weibull functions describe one law
OneLaw == Weibull /\ Zero \prec x =>
  /\ CloseTol(RExp(Fn("generate_weibull_logcdf", p, x)), Fn("generate_weibull_cdf", p, x), RDec("1e-12"))
  /\ CloseTol(RExp(Fn("generate_weibull_logsf", p, x)) (+) Fn("generate_weibull_cdf", p, x), One, RDec("1e-9"))
\* the density integrates to the distribution function (Simpson's rule on 32 pieces)
Simpson(n) == LET w == h (/) RInt(n) IN
  (w (/) RInt(3)) (.) RSum([i \in 1..(n + 1) |->
     RInt(IF i \in {1, n + 1} THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2) (.) Fn("pdf_norm", p, x (+) (RInt(i - 1) (.) w))])
DensityIntegrates == f = "pdf_norm" => CloseTol(Simpson(32), Fn("cdf_norm", p, Y) (-) Fn("cdf_norm", p, x), RDec("1e-6"))
\* the exponential law has no memory
Memoryless == f = "cdf_expon" /\ Zero \preceq x =>
  CloseTol(One (-) Fn(f, p, Y), (One (-) Fn(f, p, x)) (.) (One (-) Fn(f, p, h)), RDec("1e-12"))
\* moments: shifting the sample changes no central moment; scaling multiplies the k-th by the k-th power
Sample == <<x, Y, h, RInt(2), x (.) h>>
MomentLaws == \A k \in 1..4 :
  /\ CloseTol(CentralMoment(RAdd(Sample, RInt(3)), k), CentralMoment(Sample, k), RDec("1e-9"))
  /\ CloseTol(CentralMoment(RMul(Sample, RInt(2)), k), PowI(RInt(2), k) (.) CentralMoment(Sample, k), RDec("1e-9"))
  /\ k = 1 => CloseTol(CentralMoment(Sample, k), Zero, RDec("1e-12"))
  /\ k = 2 => CloseTol(CentralMoment(Sample, 2), Moment(Sample, 2, Zero) (-) Sq(RMean(Sample)), RDec("1e-9"))
DefaultsNamed == \A s \in DOMAIN SamplerFamily : DOMAIN SamplerDefault(SamplerFamily[s]) = GenParams(SamplerFamily[s])
EveryFamily == {SamplerFamily[s] : s \in DOMAIN SamplerFamily} = Families
=============================================================================
