--------------------------- MODULE CalibrationMC ---------------------------
(* Statistics are built, hypotheses stated, generators made, for every family and a grid of parameters. *)
EXTENDS Calibration, FiniteSets
VARIABLES stage, fam, built, hyp
vars == <<stage, fam, built, hyp>>

Grid(d, x) ==
  IF x \in {"mean", "loc"} \/ (d = "uniform" /\ x = "a") THEN {RDec("-1.5"), Zero, RDec("0.25")}
  ELSE IF d = "uniform" THEN {RDec("0.5"), RInt(3)} ELSE {RDec("0.3"), One, RDec("4.5")}
Rows(d) == {g \in [NullNames(d) -> UNION {Grid(d, x) : x \in NullNames(d)}] : \A x \in NullNames(d) : g[x] \in Grid(d, x)}
Points == {RDec(s) : s \in {"-3", "-0.7", "0", "0.001", "0.2", "0.5", "0.95", "1", "1.7", "4", "30"}}

Init == stage = "none" /\ fam = "" /\ built = <<>> /\ hyp = <<>>
Build == stage = "none" /\ \E d \in TestedFamilies : \E g \in Rows(d) : stage' = "built" /\ fam' = d /\ built' = g /\ UNCHANGED hyp
State == stage = "built" /\ stage' = "stated" /\ hyp' = HypothesisOf(fam, built) /\ UNCHANGED <<fam, built>>
Reset == stage = "stated" /\ stage' = "none" /\ fam' = "" /\ built' = <<>> /\ hyp' = <<>>
Spec == Init /\ [][Build \/ State \/ Reset]_vars

\* the generator accepts the hypothesis' names, and draws the law the statistic was built for
NamesAgree == stage = "stated" => DOMAIN hyp = GenParams(fam)
Calibrated == stage = "stated" /\ Expressible(fam, built) =>
  \A x \in Points : CloseTol(Cdf(fam, hyp, x), NullCdf(fam, built, x), RDec("1e-11"))
NullIsLaw == stage = "built" => \A x \in Points : \A y \in Points :
  LET p == NullCdf(fam, built, x) q == NullCdf(fam, built, y) IN Zero \preceq p /\ p \preceq One /\ (x \preceq y => p \preceq q)
=============================================================================
