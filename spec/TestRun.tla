------------------------------ MODULE TestRun ------------------------------
(***************************************************************************)
(* One run of a goodness-of-fit test with a Monte-Carlo limit distribution *)
(* as a state machine: evaluate the statistic on the given sample,         *)
(* simulate Sims fresh samples of the same size, evaluate each once,      *)
(* decide.  Checked exhaustively for small samples of small integers; the  *)
(* trace specification TestRunTrace judges recorded runs by the same       *)
(* bookkeeping.                                                            *)
(***************************************************************************)
EXTENDS Decision, FiniteSets, TLC
CONSTANTS Values,      \* possible observations
          Size, Sims, \* sample size and number of simulated samples
          LevelsX8     \* significance levels in eighths

Samples == [1..Size -> Values]
\* the statistic of the model: the sum of the sample
T(s) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE s[i] + F(i - 1) IN F(Size)

VARIABLES pc, alt, method, level, obs, value, sims, lim, result
vars == <<pc, alt, method, level, obs, value, sims, lim, result>>
None == [kind |-> "none"]

Init == /\ pc = "called" /\ alt \in Alts /\ method \in {"cv", "pvalue"} /\ level \in LevelsX8
        /\ obs \in Samples /\ value = 0 /\ sims = <<>> /\ lim = <<>> /\ result = None
Evaluate == /\ pc = "called" /\ value' = T(obs) /\ pc' = "simulating"
            /\ UNCHANGED <<alt, method, level, obs, sims, lim, result>>
Simulate == /\ pc = "simulating" /\ Len(sims) < Sims
            /\ \E s \in Samples : sims' = Append(sims, s) /\ lim' = Append(lim, T(s))
            /\ UNCHANGED <<pc, alt, method, level, obs, value, result>>
L == [i \in 1..Len(lim) |-> RInt(lim[i])]
Decide ==
  /\ pc = "simulating" /\ Len(sims) = Sims /\ pc' = "done"
  /\ LET a == RRat(level, 8) t == RInt(value) IN
     result' = IF method = "cv"
               THEN [kind |-> "cv", statistic |-> value, level |-> level,
                     rejected |-> Outside(alt, CriticalValues(alt, L, a), t)]
               ELSE [kind |-> "pvalue", statistic |-> value, level |-> level,
                     rejected |-> PValue(alt, L, t) \preceq a]
  /\ UNCHANGED <<alt, method, level, obs, value, sims, lim>>
Next == Evaluate \/ Simulate \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOk == pc \in {"called", "simulating", "done"}
\* the limit distribution is exactly the statistic on the simulated samples, in order
LimitIsSimulated == Len(lim) = Len(sims) /\ \A i \in 1..Len(lim) : lim[i] = T(sims[i])
ResultTruthful == pc = "done" =>
  /\ result.statistic = T(obs) /\ result.level = level /\ result.kind = method /\ Len(lim) = Sims
\* a statistic on the extreme, rejecting side of every simulated value is rejected at every
\* level of at least 1/(Sims+1), a typical one is not rejected at level 0 by critical values
Extreme == \/ alt = "left" /\ \A i \in 1..Len(lim) : value < lim[i]
           \/ alt = "right" /\ \A i \in 1..Len(lim) : value > lim[i]
           \/ alt = "two_tailed" /\ (\A i \in 1..Len(lim) : value < lim[i] \/ \A j \in 1..Len(lim) : value > lim[j])
ExtremeRejected == (pc = "done" /\ Extreme) => result.rejected
InsideAccepted == (pc = "done" /\ level = 0 /\ method = "cv" /\ \E i, j \in 1..Len(lim) : lim[i] <= value /\ value <= lim[j])
                  => ~result.rejected
ObservedKept == [][UNCHANGED <<obs, alt, method, level>>]_vars
Ends == <>(pc = "done")
=============================================================================
