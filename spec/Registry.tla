------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of criteria, generators and descriptors.  A process starts *)
(* with nothing loaded; importing a module registers the classes it (and   *)
(* what it imports) defines.  A query loads what it needs before it        *)
(* answers, so its answer is the constant catalogue whatever was imported  *)
(* or asked before.  Catalogue(d) lists, per alternative, the short codes  *)
(* of the statistics of family d.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Families == {"normal", "exponential", "weibull", "uniform", "student", "gamma", "beta", "log_normal", "cauchy",
             "chi_2", "gompertz", "gumbel", "inv_gauss", "laplace", "lo_con_normal", "logistic", "mix_con_normal",
             "rice", "scale_con_normal", "trunc_normal", "tukey"}
GraphCodes == {"AVGDEGREE", "CLIQUENUMBER", "CONNECTEDCOMPONENTS", "EDGESNUMBER", "INDEPENDENCENUMBER", "MAXDEGREE"}

Right(d) ==
  CASE d = "normal" -> {
    "AD", "BHS", "BM1", "BM2", "CC1", "CC2", "COIN", "CS", "CVM", "DAP", "DH", "DLDMZEPD", "EP",
    "GLB", "GMG", "JB", "KURTOSIS", "MI", "RJB", "SKEW", "SWRG", "ZQ", "ZQS", "ZWA", "ZWC"}
    [] d = "exponential" -> {
    "AHS", "ATK", "CVM", "DSP", "EP", "FZ", "GD", "HM", "HP", "KC", "LZ", "MN", "RS", "WE", "WW"}
    [] d = "weibull" -> {
    "AD", "CHI2_PEARSON", "CQ*", "CVM", "KL", "LOS", "LS", "LT2", "LT3", "MD", "MSF", "OK", "RSB",
    "ST1", "ST2", "TS", "W"}
    [] d = "uniform" -> {
    "AD", "BICKEL_ROSENBLATT", "CENSORED_STEIN_U", "CHI2_PEARSON", "CVM", "GREENWOOD", "KUIPER",
    "NEYMAN", "QUESENBERRY_MILLER", "SHERMAN", "STEIN_U", "WATSON", "ZHANG"}
    [] d = "student" -> {
    "AD", "CHI2", "CVM", "KUIPER", "WATSON", "ZHANG_ZA", "ZHANG_ZC"}
    [] d = "gamma" -> {
    "AD", "CHI2_PEARSON", "CRESSIE_READ", "CVM", "GRW", "G_TEST", "KUI", "MOR", "WAT"}
    [] d = "beta" -> {
    "AD", "CHI2_PEARSON", "CVM", "ENT", "KUIPER", "MB", "MODE", "RT", "SK", "W"}
    [] d = "log_normal" -> {
    "AD", "BM1", "BM2", "CC1", "CC2", "COIN", "CS", "CVM", "DAP", "DH", "DLDMZEPD", "EP", "GLB",
    "GMG", "JB", "KL_INT", "KL_SUP", "KURTOSIS", "MI", "QUESENBERRY_MILLER", "RJB", "SKEW", "SWRG",
    "ZQ", "ZQS", "ZWA", "ZWC"}
    [] OTHER -> {}
Left(d) ==
  CASE d = "normal" -> {
    "FILLI", "LG", "RJ", "SF", "SW"}
    [] d = "exponential" -> {
    "HG1", "HG2", "KM", "SW"}
    [] d = "weibull" -> {
    "REJG", "SB", "SPP"}
    [] d = "gamma" -> {
    "PPCC"}
    [] d = "log_normal" -> {
    "FILLI", "LG", "RJ", "SF", "SW"}
    [] OTHER -> {}
TwoTailed(d) ==
  CASE d = "normal" -> {
    "BS", "D", "HOSKING1", "HOSKING2", "HOSKING3", "HOSKING4", "KS", "LILLIE", "SH"}
    [] d = "exponential" -> {
    "CO", "EPS", "GINI", "KS", "PT"}
    [] d = "weibull" -> {
    "KS", "LILLIE", "MT"}
    [] d = "uniform" -> {
    "KS", "LILLIE"}
    [] d = "student" -> {
    "KS", "LILLIE"}
    [] d = "gamma" -> {
    "KS", "LILLIE", "MT"}
    [] d = "beta" -> {
    "KS", "LILLIE"}
    [] d = "log_normal" -> {
    "BS", "D", "HOSKING1", "HOSKING2", "HOSKING3", "HOSKING4", "KS", "LILLIE", "SH"}
    [] OTHER -> {}
Graphs(d) == IF d \in {"normal", "exponential", "gamma"} THEN GraphCodes ELSE {}
Catalogue(d) == Right(d) \cup Left(d) \cup TwoTailed(d) \cup Graphs(d)
Alternative(d, c) == IF c \in Right(d) THEN "right" ELSE IF c \in Left(d) THEN "left" ELSE "two_tailed"
\* statistics that test against the alternative they are given
Choosable(d, c) == c = "KS"

FamilyCode(d) ==
  CASE d = "normal" -> "NORMALITY" [] d = "exponential" -> "EXPONENTIALITY" [] d = "weibull" -> "WEIBULL"
    [] d = "uniform" -> "UNIFORM" [] d = "student" -> "STUDENT" [] d = "gamma" -> "GAMMA" [] d = "beta" -> "BETA"
    [] d = "log_normal" -> "LOGNORMAL" [] OTHER -> ""
FullCode(d, c) == c \o (IF c \in GraphCodes THEN "_GRAPH_" ELSE "_") \o FamilyCode(d) \o "_GOODNESS_OF_FIT"

CONSTANTS Modules, Queries, MaxCalls, OwnFamilies, OwnCodes
\* what a module registers once loaded (families of statistics; "generators"; "descriptors")
Provides(m) == CASE m = "package" -> {"nothing"} [] m = "statistics" -> {"base"} [] m = "utils.statistic" -> {"base"}
                 [] m = "goodness_of_fit" -> {"criteria"} [] m = "utils.generator" -> {"genbase"} [] m = "generators" -> {"generators"}
                 [] m = "utils.distribution" -> {"descriptors"} [] m = "api" -> {"nothing"} [] OTHER -> {"nothing"}
Needs(q) == CASE q = "criteria" -> {"criteria"} [] q = "generator" -> {"generators"} [] OTHER -> {"descriptors"}
\* defined: statistics the program itself has defined, <<family, short code>>
VARIABLES loaded, answer, calls, defined
rvars == <<loaded, answer, calls, defined>>
Init == loaded = {} /\ answer = <<>> /\ calls = 0 /\ defined = {}
Own(d, def) == {x[2] : x \in {y \in def : y[1] = d}}
\* the answer is computed from what is loaded: incomplete if something is missing
Answer(q, known) == IF q[1] = "criteria" THEN (IF "criteria" \in known THEN Catalogue(q[2]) ELSE {}) \cup Own(q[2], defined)
                    ELSE IF Needs(q[1]) \subseteq known THEN {q[2]} ELSE {}
Import(m) == calls < MaxCalls /\ loaded' = loaded \cup Provides(m) /\ answer' = <<>> /\ calls' = calls + 1 /\ UNCHANGED defined
\* the program defines a concrete statistic (an abstract class changes nothing)
Define(d, c) == calls < MaxCalls /\ loaded' = loaded \cup {"base"} /\ defined' = defined \cup {<<d, c>>} /\ answer' = <<>> /\ calls' = calls + 1
\* an answer belongs to the program: writing to it changes no later answer
Spoil == calls < MaxCalls /\ answer' = <<>> /\ calls' = calls + 1 /\ UNCHANGED <<loaded, defined>>
Ask(q) == /\ calls < MaxCalls
          /\ loaded' = loaded \cup Needs(q[1])
          /\ answer' = <<q, Answer(q, loaded')>>
          /\ calls' = calls + 1
          /\ UNCHANGED defined
Next == \/ \E m \in Modules : Import(m)
        \/ \E k \in Queries, d \in Families : Ask(<<k, d>>)
        \/ \E d \in OwnFamilies, c \in OwnCodes : Define(d, c)
        \/ Spoil
Spec == Init /\ [][Next]_rvars

AnswersConstant == answer # <<>> =>
  answer[2] = IF answer[1][1] = "criteria" THEN Catalogue(answer[1][2]) \cup Own(answer[1][2], defined) ELSE {answer[1][2]}
\* the catalogue itself: alternatives partition it and the full codes identify the statistics
ASSUME \A d \in Families : Right(d) \cap Left(d) = {} /\ Right(d) \cap TwoTailed(d) = {} /\ Left(d) \cap TwoTailed(d) = {}
AllStats == {<<d, c>> : d \in Families, c \in UNION {Catalogue(e) : e \in Families}}
Listed == {s \in AllStats : s[2] \in Catalogue(s[1])}
ASSUME Cardinality({FullCode(s[1], s[2]) : s \in Listed}) = Cardinality(Listed)
=============================================================================
