---------------------------- MODULE StatGroupsMC ----------------------------
(* A statistic is evaluated, then sample and parameters are transformed again and again: the specified value  *)
(* stays where it was (up to the declared factor).                                                            *)
EXTENDS StatGroups
CONSTANTS Depth
VARIABLES d, c, o, p, s, first, factor, depth
vars == <<d, c, o, p, s, first, factor, depth>>

R(q) == [i \in 1..Len(q) |-> RDec(q[i])]
Bases == << <<"0.11", "0.19", "0.27", "0.35", "0.36", "0.52", "0.61", "0.7", "0.83", "0.97">>,
            <<"0.05", "0.25", "0.25", "0.5", "0.5", "0.5", "0.75", "0.8", "0.9", "0.95", "0.96">>,
            <<"0.02", "0.04", "0.07", "0.1", "0.14", "0.18", "0.21", "0.26", "0.3", "0.33", "0.37", "0.41", "0.46", "0.5", "0.55", "0.58", "0.6", "0.64",
              "0.68", "0.71", "0.75", "0.8", "0.84", "0.88", "0.91", "0.93", "0.985">> >>
Families == {"normal", "exponential", "weibull", "log_normal", "gamma", "uniform", "student", "beta"}
Codes(f) == CASE f = "normal" -> NormalComposite \cup {"KS", "CVM"} [] f = "exponential" -> ExponentialComposite \cup {"KS", "CVM", "HG1", "HG2"}
  [] f = "weibull" -> WeibullComposite \cup {"KS", "LILLIE", "CVM", "W", "MT", "MD", "LS"}
  [] f = "log_normal" -> (LogNormalComposite \ {"KL_SUP"}) \cup {"KS", "CVM", "QUESENBERRY_MILLER"}
  [] f = "gamma" -> {"LILLIE", "KS", "AD", "CVM", "KUI", "WAT", "MT", "GRW", "CHI2_PEARSON", "G_TEST", "CRESSIE_READ", "PPCC"}
  [] f = "uniform" -> {"KS", "LILLIE", "AD", "CVM", "KUIPER", "WATSON", "ZHANG", "CHI2_PEARSON", "GREENWOOD", "BICKEL_ROSENBLATT", "STEIN_U", "NEYMAN", "SHERMAN", "QUESENBERRY_MILLER"}
  [] f = "student" -> {"KS", "AD", "CVM", "KUIPER", "WATSON", "ZHANG_ZA", "ZHANG_ZC", "CHI2"}
  [] f = "beta" -> {"KS", "LILLIE", "AD", "CVM", "KUIPER", "W", "MB", "SK", "ENT"}
P0(f) == CASE f = "normal" -> [mean |-> D("0.4"), var |-> D("0.09")] [] f = "exponential" -> [lam |-> D("1.7")] [] f = "weibull" -> [a |-> D("1.2"), k |-> D("1.6")]
  [] f = "log_normal" -> [s |-> D("0.8"), scale |-> D("0.5")] [] f = "gamma" -> [alpha |-> D("2.5"), beta |-> D("5")]
  [] f = "uniform" -> [a |-> Zero, b |-> One] [] f = "student" -> [df |-> D("3.5"), loc |-> D("0.4"), scale |-> D("0.3")]
  [] f = "beta" -> [alpha |-> D("1.3"), beta |-> D("1.8")]
\* tuning parameters: a record with every name any of them reads
O(f, code) == CASE code = "KS" -> {[alt |-> a] : a \in {"two", "left", "right"}}
  [] code = "RJ" -> {[weighted |-> w, cte |-> "1/2"] : w \in BOOLEAN}
  [] code = "ATK" -> {[p |-> D("0.5")]} [] code = "DSP" -> {[b |-> D("0.44")]} [] code \in {"GD", "HM"} -> {[r |-> 0], [r |-> 2]} [] code = "LZ" -> {[p |-> Half]}
  [] code = "ZHANG" -> {[test |-> x] : x \in {"A", "C", "K"}} [] code = "NEYMAN" -> {[k |-> 3]} [] code = "BICKEL_ROSENBLATT" -> {[auto |-> TRUE, h |-> Zero]}
  [] f = "uniform" /\ code = "CHI2_PEARSON" -> {[rule |-> x, bins |-> 3, lam |-> One] : x \in {"auto", "count"}}
  [] f = "gamma" /\ code \in {"CHI2_PEARSON", "G_TEST"} -> {[bins |-> 3]} [] code = "CRESSIE_READ" -> {[bins |-> 3, power |-> RRat(2, 3)]}
  [] code = "CHI2" -> {[bins |-> 4]} [] code = "ENT" -> {[w |-> 2]}
  [] OTHER -> {<<>>}
Transforms(f, code) ==
  LET kinds == (IF code \in Composite(f) THEN CompositeKinds(f) ELSE {}) \cup SimpleKinds(f, code) IN
  UNION {CASE k = "affine" -> {[kind |-> k, a |-> D(x), b |-> IF HalfLine(f) THEN Zero ELSE D("-0.7")] : x \in IF code \in Counting THEN {"0.25", "2"} ELSE {"0.3", "2.5"}}
           [] k = "power" -> {[kind |-> k, a |-> D(x), b |-> IF f = "weibull" /\ code \notin Composite(f) THEN One ELSE D("1.3")] : x \in {"0.7", "1.5"}}
           [] k = "reflect" -> {[kind |-> k, a |-> One, b |-> Half]} : k \in kinds}

Init == /\ d \in Families /\ c \in Codes(d) /\ o \in O(d, c) /\ p = P0(d) /\ s \in {R(Bases[i]) : i \in 1..Len(Bases)}
        /\ first = Value(d, c, p, o, s) /\ factor = One /\ depth = 0
Transform == /\ depth < Depth
             /\ \E t \in Transforms(d, c) :
                  /\ s' = RSort(ActX(t, s))
                  /\ p' = IF c \in Composite(d) THEN p ELSE ActP(d, t, p)
                  /\ o' = ActO(t, o)
                  /\ factor' = (factor (.) Factor(d, c, t))
             /\ depth' = depth + 1 /\ UNCHANGED <<d, c, first>>
Spec == Init /\ [][Transform]_vars
Agree(a, b) == RIsNaN(b) \/ CloseTol(a, b, GroupTolerance(d, c))
Invariance == Agree(Value(d, c, p, o, s), first (.) factor)
Covered == depth < Depth => Transforms(d, c) # {}
=============================================================================
