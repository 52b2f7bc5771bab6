-------------------------- MODULE CalibrationTrace --------------------------
(***************************************************************************)
(* Recorded: a statistic is built, its hypothesis handed to the registry's *)
(* generator, and the draws collected.  They must follow the null law of   *)
(* the constructor parameters.                                             *)
(***************************************************************************)
EXTENDS Calibration, Verdict
VARIABLES l
vars == <<l>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)
TReset == IsEvent("reset") /\ Step
TDraws == IsEvent("draws") /\ LET ev == Trace[l] key == ev.d \o "-" \o ev.short txt == ev.d \o "/" \o ev.short \o " " \o ev.what \o " " IN
  /\ Clause(ev.ok, l, "raised-" \o key, txt \o ev.err)
  /\ ev.ok => /\ Clause(Len(ev.vals) = ev.n, l, "size-" \o key, txt \o "got " \o ToString(Len(ev.vals)) \o " values")
              /\ Clause(ev.dist = ev.d, l, "distribution-" \o key, txt \o "draws from " \o ev.dist)
              /\ \A dist \in {IF Len(ev.vals) = 0 THEN One ELSE With([i \in 1..Len(ev.vals) |-> NullCdf(ev.d, ev.given, ev.vals[i])], LAMBDA u : KsOf(TLCEval(RSort(u))))} :
                   IF (RSqrt(RInt(ev.n)) (.) dist) \prec RDec("2.6") THEN TRUE
                   ELSE IF Expressible(ev.d, ev.given) THEN Bad(l, "law-" \o key, txt \o "draws at distance " \o RStr(dist) \o " from the null law")
                   ELSE Dev(l, "student-loc-scale", txt \o "draws at distance " \o RStr(dist) \o " from the null law: location and scale are not simulated")
  /\ Step
TraceInit == l = 1
TraceSpec == TraceInit /\ [][TReset \/ TDraws]_vars
=============================================================================
