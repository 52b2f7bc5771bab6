---------------------------- MODULE Descriptors ----------------------------
(***************************************************************************)
(* What the library accepts as parameters of a distribution: the names its *)
(* generator takes, the documented default of each, and the set of numbers *)
(* a parameter may be.                                                     *)
(***************************************************************************)
EXTENDS Dists

Domain(d, x) ==
  CASE x \in {"var", "lam", "k", "df", "alfa", "beta", "s", "eta", "sigma"} /\ d \notin {"tukey", "rice"} -> "positive"
    [] x = "a" /\ d \in {"weibull", "beta"} -> "positive"
    [] x = "b" /\ d \in {"beta", "gompertz", "mix_con_normal", "scale_con_normal"} -> "positive"
    [] x = "mu" /\ d = "inv_gauss" -> "positive"
    [] d = "rice" -> "nonnegative"
    [] x = "p" -> "probability"
    [] OTHER -> "any"
Accepts(dom, v) ==
  CASE dom = "positive" -> Zero \prec v [] dom = "nonnegative" -> Zero \preceq v
    [] dom = "probability" -> Zero \preceq v /\ v \preceq One [] OTHER -> TRUE
DefaultOf(d, x) ==
  CASE d = "weibull" -> (IF x = "a" THEN One ELSE RInt(5))
    [] d \in {"student", "chi_2", "tukey"} -> Two
    [] d = "cauchy" -> Half
    [] d = "trunc_normal" /\ x = "a" -> RInt(-10) [] d = "trunc_normal" /\ x = "b" -> RInt(10)
    [] x = "p" -> Half
    [] x = "mean" -> Zero
    [] x = "a" /\ d \notin {"beta"} -> Zero
    [] x \in {"t", "nu"} -> Zero
    [] x = "mu" /\ d # "inv_gauss" -> Zero
    [] OTHER -> One
\* the table is consistent: every default lies in its domain, and uniform and truncated normal have a < b
ASSUME \A d \in Families : \A x \in GenParams(d) : Accepts(Domain(d, x), DefaultOf(d, x))
ASSUME DefaultOf("uniform", "a") \prec DefaultOf("uniform", "b") /\ DefaultOf("trunc_normal", "a") \prec DefaultOf("trunc_normal", "b")
VARIABLE done
Spec == done = FALSE /\ [][done' = TRUE]_done
=============================================================================
