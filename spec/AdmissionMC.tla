----------------------------- MODULE AdmissionMC -----------------------------
(***************************************************************************)
(* The admission rules on small samples of grid values: exactly one        *)
(* verdict per sample, verdicts independent of the order of the            *)
(* observations, refusal inherited by larger samples, and the bounded      *)
(* families related by their affine map.                                   *)
(***************************************************************************)
EXTENDS Admission
CONSTANTS Grid, MaxLen
VARIABLES xs, d, c
vars == <<xs, d, c>>
Families == {"normal", "exponential", "weibull", "uniform", "beta", "gamma", "student", "log_normal"}
G == (0-1)..7
Codes == {"KS", "AD", "MODE", "LILLIE", "MOR", "PPCC", "WAT", "SKEW", "KURTOSIS", "ZWA", "JB", "KL_SUP", "SPP", "W", "CHI2_PEARSON", "EDGESNUMBER"}
P(f) == IF f = "uniform" THEN [a |-> RInt(1), b |-> RInt(3)] ELSE [x |-> Zero]
R(q) == [i \in 1..Len(q) |-> RDiv(RInt(q[i]), Two)]
Init == xs = <<>> /\ d \in Families /\ c \in Codes
Next == Len(xs) < MaxLen /\ (\E v \in Grid : xs' = Append(xs, v)) /\ UNCHANGED <<d, c>>
Spec == Init /\ [][Next]_vars
Out(q) == Permitted(d, c, P(d), R(q))
Swap(q, i) == [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]
TypeOK == Out(xs) \subseteq Outcomes /\ Out(xs) # {}
Symmetric == \A i \in 1..(Len(xs) - 1) : Out(Swap(xs, i)) = Out(xs)
\* a value outside the support is never accepted, whatever else the sample contains
Inherited == (Bounded(d) /\ Out(xs) = {"refused"}) => \A v \in Grid : Out(Append(xs, v)) = {"refused"}
NeverNumber == (Bounded(d) /\ \E i \in 1..Len(xs) : R(xs)[i] \prec Lo(d, P(d)) \/ Hi(d, P(d)) \prec R(xs)[i]) => "number" \notin Out(xs)
\* uniform on [1, 3] accepts x exactly where uniform on [0, 1] accepts (x - 1) / 2
Affine == d = "uniform" => (Outside(d, P(d), R(xs)) <=> Outside(d, [a |-> Zero, b |-> One], [i \in 1..Len(xs) |-> RDiv(RSub(R(xs)[i], One), Two)]))
Beta01 == d = "beta" => (Outside("beta", P("beta"), R(xs)) <=> Outside("uniform", [a |-> Zero, b |-> One], R(xs)))
Parameters == \A u, v \in Grid : LET x == RInt(u) y == RInt(v) IN
  /\ ParamsOk("uniform", c, [a |-> x, b |-> y]) <=> u < v
  /\ ParamsOk("gamma", c, [alpha |-> x, beta |-> y]) <=> u > 0 /\ v > 0
  /\ ParamsOk("beta", "MODE", [alpha |-> x, beta |-> y]) => ParamsOk("beta", "KS", [alpha |-> x, beta |-> y])
  /\ (u > 1 /\ v > 1) <=> ParamsOk("beta", "MODE", [alpha |-> x, beta |-> y])
=============================================================================
