---------------------------- MODULE LikelihoodMC ----------------------------
(***************************************************************************)
(* The specified maxima are maxima: on every sample of grid values no      *)
(* neighbouring parameter vector (each coordinate moved, together or       *)
(* alone, admissible for the sample) has a larger likelihood; the maximum  *)
(* does not depend on the order of the sample and moves with its scale.    *)
(***************************************************************************)
EXTENDS Likelihood
CONSTANTS MaxLen, Top, Fams
VARIABLES q, f
vars == <<q, f>>
M == 4
All20 == Families \ {"t_distribution", "fisher"}
R(s) == IF f = "beta" THEN [i \in 1..Len(s) |-> RRat(2 * s[i] + 1, 2 * Top + 3)] ELSE [i \in 1..Len(s) |-> RInt(s[i])]
Init == q = <<>> /\ f \in Fams
Next == Len(q) < MaxLen /\ (\E v \in 0..Top : q' = Append(q, v)) /\ UNCHANGED f
Spec == Init /\ [][Next]_vars
Steps == {RRat(1, 2), RRat(9, 10), RRat(999, 1000), One, RRat(1001, 1000), RRat(11, 10), Two}
\* moved parameters admissible for the sample
Moves(t) ==
  CASE f \in {"uniform", "discrete_uniform"} -> {[a |-> t.a (-) RRat(i, 8), b |-> t.b (+) RRat(j, 8)] : i, j \in 0..9}
    [] f \in {"normal", "lognormal"} -> {[m |-> t.m (+) RRat(i, 50), v |-> t.v (.) k] : i \in {0 - 40, 0 - 3, 0, 1, 70}, k \in Steps}
    [] f = "laplace" -> {[m |-> t.m (+) RRat(i, 50), b |-> t.b (.) k] : i \in {0 - 40, 0 - 3, 0, 1, 70}, k \in Steps}
    [] f = "cauchy" -> {[m |-> t.m (+) RRat(i, 50), s |-> t.s (.) k] : i \in {0 - 40, 0 - 3, 0, 1, 70}, k \in Steps}
    [] f \in {"exponential", "poisson"} -> {[l |-> t.l (.) k] : k \in Steps}
    [] f = "weibull" -> {[k |-> t.k (.) k, s |-> t.s (.) j] : k, j \in Steps}
    [] f \in {"gamma", "chi_squared"} -> {[a |-> t.a (.) k, s |-> t.s (.) j] : k, j \in Steps}
    [] f = "beta" -> {[a |-> t.a (.) k, b |-> t.b (.) j] : k, j \in Steps}
    [] f = "rayleigh" -> {[s |-> t.s (.) k] : k \in Steps}
    [] f = "wigner" -> {[r |-> v] : v \in {w \in {t.r (.) k : k \in Steps} : RMaxOf(RAbs(R(q))) \prec w}}
    [] f = "pareto" -> {[m |-> t.m (.) k, a |-> t.a (.) j] : k \in {RRat(1, 2), RRat(99, 100), One}, j \in Steps}
    [] f \in {"bernoulli", "binomial", "geometric"} -> {[p |-> v] : v \in {w \in {t.p (.) k : k \in Steps} : w \prec One}}
Judged == q # <<>> /\ Answer(f, R(q), M).kind = "log" /\ ~(Constant(R(q)) /\ f \in {"bernoulli", "binomial", "poisson", "geometric", "discrete_uniform"})
Maximal == Judged => \A t \in {TLCEval(Best(f, R(q), M))} : \A top \in {TLCEval(LogLik(f, R(q), M, t))} :
             \A u \in Moves(t) : LogLik(f, R(q), M, u) \preceq (top (+) RDec("1e-9"))
Answers == q # <<>> => Answer(f, R(q), M).kind \in {"zero", "inf", "any", "log"}
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Same(a, b) == IF a.kind = "log" /\ b.kind = "log" THEN CloseTol(a.v, b.v, RDec("1e-7")) ELSE a.kind = b.kind
Symmetric == Len(q) > 1 => \A i \in 1..(Len(q) - 1) : Same(Answer(f, R(Swap(q, i)), M), Answer(f, R(q), M))
ScaleFamilies == {"uniform", "normal", "lognormal", "exponential", "gamma", "chi_squared", "cauchy", "rayleigh", "wigner", "pareto", "laplace", "weibull"}
Equivariant == (Judged /\ f \in ScaleFamilies) => \A a \in {TLCEval(Answer(f, R(q) (.) 2, M))} : \A b \in {TLCEval(Answer(f, R(q), M))} :
  a.kind = "log" /\ CloseTol(a.v, b.v (-) (RLog(Two) (.) Len(q)), RDec("1e-6"))
=============================================================================
