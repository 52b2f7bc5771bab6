------------------------------ MODULE Admission ------------------------------
(***************************************************************************)
(* Which null parameters and which samples a statistic accepts, and what   *)
(* becomes of the others.  An evaluation has one outcome:                  *)
(*   number   a finite number            inf   an infinite value           *)
(*   nan      not a number               none  no value (Python None)      *)
(*   refused  ValueError                 raised  any other exception       *)
(* Permitted(d, c, p, xs) is the set of outcomes the specification allows. *)
(***************************************************************************)
EXTENDS Real64, TLC, FiniteSets
Outcomes == {"number", "inf", "nan", "none", "refused", "raised"}
Gt(x, y) == y \prec x

\* --- constructors -------------------------------------------------------------
ParamsOk(d, c, p) ==
  CASE d = "beta" -> IF c = "MODE" THEN Gt(p.alpha, One) /\ Gt(p.beta, One) ELSE Gt(p.alpha, Zero) /\ Gt(p.beta, Zero)
    [] d = "gamma" -> Gt(p.alpha, Zero) /\ Gt(p.beta, Zero)
    [] d = "uniform" -> Gt(p.b, p.a)
    [] d = "student" -> Gt(p.df, Zero) /\ (IF "scale" \in DOMAIN p THEN Gt(p.scale, Zero) ELSE TRUE)
    [] d = "log_normal" -> Gt(p.s, Zero) /\ Gt(p.scale, Zero)
    [] OTHER -> TRUE
\* tuning options with a stated domain: [gamma bins], [Zhang type]
OptionsOk(d, c, o) ==
  CASE d = "gamma" /\ "bins" \in DOMAIN o -> o.bins >= 2
    [] d = "uniform" /\ "type" \in DOMAIN o -> o.type \in {"A", "C", "K", "a", "c", "k"}
    [] OTHER -> TRUE

\* --- samples ------------------------------------------------------------------
Bounded(d) == d \in {"uniform", "beta"}
Lo(d, p) == IF d = "uniform" THEN p.a ELSE Zero
Hi(d, p) == IF d = "uniform" THEN p.b ELSE One
Outside(d, p, xs) == \E i \in 1..Len(xs) : xs[i] \prec Lo(d, p) \/ Hi(d, p) \prec xs[i]
Interior(d, p, xs) == \A i \in 1..Len(xs) : Lo(d, p) \prec xs[i] /\ xs[i] \prec Hi(d, p)
NonPositive(xs) == \E i \in 1..Len(xs) : xs[i] \preceq Zero
Distinct(xs) == \A i, j \in 1..Len(xs) : i # j => ~(xs[i] \preceq xs[j] /\ xs[j] \preceq xs[i])
AllEqual(xs) == \A i, j \in 1..Len(xs) : xs[i] \preceq xs[j]

\* fewest observations
NeedFour == {"BHS", "BS", "BM1", "BM2", "CC1", "CC2", "CS", "COIN", "D", "DLDMZEPD", "GMG", "GLB", "HOSKING1", "HOSKING3", "HOSKING4", "MI", "SWRG", "SH",
             "ZQ", "ZQS", "ZWA", "ZWC"}
LogsOfNormal == {"AD", "LILLIE", "ZWA", "ZWC", "GLB", "SW", "SF", "SWRG", "FILLI", "LG", "RJ", "CS", "ZQ", "ZQS", "COIN", "D", "JB", "SKEW",
  "KURTOSIS", "DAP", "DH", "RJB", "BS", "BM1", "BM2", "CC1", "CC2", "GMG", "MI", "DLDMZEPD", "HOSKING1", "HOSKING2", "HOSKING3", "HOSKING4", "EP", "SH",
  "KL_SUP", "KL_INT"}
GraphCodes == {"AVGDEGREE", "CLIQUENUMBER", "CONNECTEDCOMPONENTS", "EDGESNUMBER", "INDEPENDENCENUMBER", "MAXDEGREE"}
GammaBinned == {"CHI2_PEARSON", "G_TEST", "CRESSIE_READ"}

\* the sample is too small or degenerate for the statistic to exist: no number may come out
TooSmall(d, c, xs) ==
  LET n == Len(xs) IN
  CASE d \in {"normal", "log_normal"} ->
         (IF c \in NeedFour THEN n <= 3 ELSE IF c \in {"SKEW", "DAP"} THEN n < 8 ELSE IF c = "KURTOSIS" THEN n < 5 ELSE IF c \in {"JB", "KS"} THEN n = 0 ELSE FALSE)
    [] d = "gamma" -> (IF c = "PPCC" THEN n < 2 ELSE IF c \in GammaBinned \cup GraphCodes \cup {"LILLIE", "WAT", "KUI", "MOR", "KS"} THEN n = 0 ELSE FALSE)
    [] OTHER -> FALSE
RefusalOfSize(d, c) == IF d \in {"normal", "log_normal"} /\ c \in NeedFour THEN {"none"} ELSE {"refused"}
Degenerate(d, c, xs) ==
  IF d # "gamma" \/ xs = <<>> THEN FALSE
  ELSE CASE c = "LILLIE" -> RSum(xs) \preceq Zero \/ (Len(xs) > 1 /\ AllEqual(xs))
         [] c = "MOR" -> NonPositive(xs) \/ ~Distinct(xs)
         [] c = "PPCC" -> AllEqual(xs)
         [] OTHER -> FALSE
\* smallest sample from which every statistic of the family is a number
Enough(d, c) ==
  CASE c = "HOSKING4" -> 10 [] c \in {"ZQ", "ZQS"} \/ c = "HOSKING3" -> 9 [] d \in {"normal", "log_normal"} -> 8 [] d = "uniform" /\ c = "BICKEL_ROSENBLATT" -> 3
    [] OTHER -> 6
Permitted(d, c, p, xs) ==
  CASE Bounded(d) /\ Outside(d, p, xs) -> {"refused"}
    [] d = "log_normal" /\ c \in LogsOfNormal /\ NonPositive(xs) -> {"inf"}
    [] d = "weibull" /\ c \in {"AD", "SPP"} /\ NonPositive(xs) -> {"refused"}
    [] TooSmall(d, c, xs) -> RefusalOfSize(d, c)
    [] Degenerate(d, c, xs) -> {"refused"}
    [] d = "log_normal" /\ c \in {"KL_SUP", "KL_INT"} /\ Len(xs) < 2 -> {"inf"}
    [] Len(xs) >= Enough(d, c) /\ Distinct(xs) /\ (IF Bounded(d) THEN Interior(d, p, xs) ELSE IF d \in {"normal", "student"} THEN TRUE ELSE ~NonPositive(xs)) -> {"number"}
    [] Len(xs) >= Enough(d, c) /\ Distinct(xs) /\ Bounded(d) -> {"number", "inf"}
    [] OTHER -> Outcomes
=============================================================================
