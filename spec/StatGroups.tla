----------------------------- MODULE StatGroups -----------------------------
(***************************************************************************)
(* Which transformations of sample and null parameters leave a statistic   *)
(* alone.  A transformation t is a record [kind, a, b]:                    *)
(*   affine   x -> a x + b   (a > 0; b = 0 for families on the half line)  *)
(*   power    x -> b x^a     (a, b > 0; b = 1 for a simple Weibull null)   *)
(*   reflect  x -> 2 b - x, sides of one-sided tests exchanged             *)
(* Parameters move along (joint action of the family's group) unless the   *)
(* statistic estimates them.                                               *)
(***************************************************************************)
EXTENDS Statistics

Sides == [two |-> "two", left |-> "right", right |-> "left"]
ActX(t, x) == CASE t.kind = "affine" -> (x (.) t.a) (+) t.b
                [] t.kind = "power" -> RPow(x, t.a) (.) t.b
                [] t.kind = "reflect" -> (Two (.) t.b) (-) x
\* the law of the transformed observation, in the family's own parameters
ActP(d, t, p) ==
  CASE d = "normal" /\ t.kind = "affine" -> [mean |-> (p.mean (.) t.a) (+) t.b, var |-> p.var (.) Sq(t.a)]
    [] d = "normal" /\ t.kind = "reflect" -> [mean |-> (Two (.) t.b) (-) p.mean, var |-> p.var]
    [] d = "exponential" /\ t.kind = "affine" -> [lam |-> p.lam (/) t.a]
    [] d = "uniform" /\ t.kind = "affine" -> [a |-> (p.a (.) t.a) (+) t.b, b |-> (p.b (.) t.a) (+) t.b]
    [] d = "uniform" /\ t.kind = "reflect" -> [a |-> (Two (.) t.b) (-) p.b, b |-> (Two (.) t.b) (-) p.a]
    [] d = "gamma" /\ t.kind = "affine" -> [alpha |-> p.alpha, beta |-> p.beta (/) t.a]
    [] d = "student" /\ t.kind = "affine" -> [df |-> p.df, loc |-> (p.loc (.) t.a) (+) t.b, scale |-> p.scale (.) t.a]
    [] d = "student" /\ t.kind = "reflect" -> [df |-> p.df, loc |-> (Two (.) t.b) (-) p.loc, scale |-> p.scale]
    [] d = "log_normal" /\ t.kind = "power" -> [s |-> p.s (.) t.a, scale |-> RPow(p.scale, t.a) (.) t.b]
    [] d = "weibull" /\ t.kind = "power" -> [a |-> p.a, k |-> p.k (/) t.a]
    [] d = "beta" /\ t.kind = "reflect" -> [alpha |-> p.beta, beta |-> p.alpha]
ActO(t, o) == IF t.kind = "reflect" /\ "alt" \in DOMAIN o THEN [o EXCEPT !.alt = Sides[o.alt]] ELSE o

\* composite nulls: the value depends on the sample's orbit alone
NormalComposite == {"AD", "LILLIE", "ZWA", "ZWC", "GLB", "SW", "SF", "SWRG", "FILLI", "LG", "RJ", "CS", "ZQ", "ZQS", "COIN", "D", "JB", "SKEW",
  "KURTOSIS", "DAP", "DH", "RJB", "BS", "BM1", "BM2", "CC1", "CC2", "GMG", "MI", "DLDMZEPD", "SH", "HOSKING1", "HOSKING2", "HOSKING3", "HOSKING4", "EP", "BHS"}
ExponentialComposite == {"AHS", "ATK", "CO", "DSP", "EP", "EPS", "FZ", "GINI", "GD", "HM", "HP", "KM", "KC", "LZ", "MN", "PT", "RS", "SW", "WE", "WW"}
WeibullComposite == {"AD", "TS", "LOS", "MSF", "OK", "SB", "RSB", "REJG", "SPP", "ST1", "ST2"}
LogNormalComposite == NormalComposite \cup {"KL_SUP", "KL_INT"}
Composite(d) == CASE d = "normal" -> NormalComposite [] d = "exponential" -> ExponentialComposite [] d = "weibull" -> WeibullComposite
                  [] d = "log_normal" -> LogNormalComposite [] d = "gamma" -> {"LILLIE"} [] OTHER -> {}
CompositeKinds(d) == IF d \in {"normal", "exponential", "gamma"} THEN {"affine"} ELSE {"power"}
HalfLine(d) == d \in {"exponential", "gamma", "weibull", "log_normal"}

\* simple nulls: the joint action leaves the value alone
SimpleKinds(d, c) ==
  CASE d = "normal" -> IF c \in {"KS", "CVM"} THEN {"affine", "reflect"} ELSE {}
    [] d = "exponential" -> IF c \in {"KS", "CVM", "HG1", "HG2"} THEN {"affine"} ELSE {}
    [] d = "uniform" -> IF c \in {"KS", "LILLIE", "AD", "CVM", "KUIPER", "WATSON", "ZHANG", "GREENWOOD", "STEIN_U", "SHERMAN", "QUESENBERRY_MILLER"}
                        THEN {"affine", "reflect"} ELSE {"affine"}
    [] d = "gamma" -> IF c = "LILLIE" THEN {} ELSE {"affine"}
    [] d = "student" -> IF c = "LILLIE" THEN {} ELSE IF c \in {"CHI2"} THEN {"affine"} ELSE {"affine", "reflect"}
    [] d = "log_normal" -> IF c \in {"KS", "CVM", "QUESENBERRY_MILLER"} THEN {"power"} ELSE {}
    [] d = "weibull" -> IF c \in {"KS", "LILLIE", "CVM", "W", "MT", "MD", "LS"} THEN {"power"} ELSE {}
    [] d = "beta" -> IF c \in {"KS", "LILLIE", "AD", "CVM", "KUIPER", "W", "MB", "SK", "ENT"} THEN {"reflect"} ELSE {}
\* two spacing statistics of the uniform law are measured in units of the sample
Factor(d, c, t) == IF d = "uniform" /\ t.kind = "affine" THEN
    (IF c = "SHERMAN" THEN t.a ELSE IF c = "QUESENBERRY_MILLER" THEN Sq(t.a) ELSE One) ELSE One
\* statistics that count comparisons between observations: transformed exactly only by powers of two
Counting == {"AHS", "DSP", "HP", "RS"}
\* agreement asked of the two values
GroupTolerance(d, c) == CASE c \in {"GLB", "KL_SUP", "KL_INT"} -> D("1e-5") [] d = "weibull" /\ c \in {"SPP", "AD"} -> D("1e-4")
                          [] c \in {"ZWC", "DLDMZEPD", "ZHANG_ZC", "ZWA", "ZHANG_ZA", "MT", "SKEW"} -> D("1e-6")
                          \* published to four digits: invariant as far as the digits go
                          [] c = "OK" -> D("0.02") [] d = "weibull" /\ c = "SB" -> D("0.002") [] OTHER -> D("1e-8")
=============================================================================
