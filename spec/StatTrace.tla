------------------------------ MODULE StatTrace ------------------------------
(***************************************************************************)
(* Recorded: values of statistics.  Each must be the specified function of *)
(* the order statistics of its sample.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
V == INSTANCE Verdict
S == INSTANCE Statistics
VARIABLES l
vars == <<l>>

\* probability-plot statistics the library pairs differently, see known_findings.txt
KnownPairing(ev, s) ==
  IF ev.d # "weibull" THEN "none"
  ELSE IF ev.code = "RSB" /\ S!Close(ev.val, S!W!RSB(S!RLog(ev.xs))) THEN "weibull-RSB-unsorted"
  ELSE IF ev.code = "SPP" /\ S!CloseTol(ev.val, S!W!SPP(S!RLog(s), TRUE), S!D("1e-4")) THEN "weibull-SPP-reversed"
  ELSE "none"

TCritical ==
  /\ l <= Len(V!Trace) /\ V!Trace[l].op = "critical"
  /\ LET ev == V!Trace[l] IN
     IF ~S!LN!KlLevel(ev.a) THEN V!Clause(~ev.ok /\ ev.exc = "ValueError", l, "critical-level", ev.txt \o " is not refused")
     ELSE IF ~ev.ok THEN V!Bad(l, "critical-raised", ev.txt)
     ELSE IF ev.code = "KL_INT" \/ S!LN!KlFixed(ev.a) THEN
       \A c \in {S!TLCEval(IF ev.code = "KL_INT" THEN S!LN!KlIntCritical(ev.n, ev.a) ELSE S!LN!KlSupCritical(ev.n, ev.a))} :
         V!Clause(S!Close(ev.val, c), l, "critical-" \o ev.code, ev.txt \o ": " \o S!RStr(ev.val) \o " instead of " \o S!RStr(c))
     ELSE IF S!LN!KlSupPlausible(ev.n, ev.a, ev.val) THEN TRUE
     ELSE IF S!Close(ev.val, S!LN!KlSupCritical(ev.n, ev.a)) THEN V!Dev(l, "kl-sup-critical", ev.txt \o ": " \o S!RStr(ev.val))
     ELSE V!Bad(l, "critical-KL_SUP", ev.txt \o ": " \o S!RStr(ev.val))
  /\ l' = l + 1
  /\ V!Done(l)
TStat ==
  /\ l <= Len(V!Trace) /\ V!Trace[l].op = "stat"
  /\ LET ev == V!Trace[l] key == ev.d \o "-" \o ev.code IN
     IF ~ev.ok /\ S!Undefined(ev.d, ev.code, ev.p, ev.xs) THEN TRUE
     ELSE IF ~ev.ok THEN V!Bad(l, "raised-" \o key, ev.txt \o ": " \o ev.err)
     ELSE \A s \in {S!TLCEval(S!RSort(ev.xs))} :
       IF S!Agrees(ev.d, ev.code, ev.p, ev.o, s, ev.val) THEN TRUE
       ELSE IF KnownPairing(ev, s) # "none" THEN V!Dev(l, KnownPairing(ev, s), ev.txt \o ": " \o S!RStr(ev.val))
       ELSE V!Bad(l, "value-" \o key, ev.txt \o ": " \o S!RStr(ev.val)
              \o (IF ev.code \in {"MODE", "KL_SUP"} THEN "" ELSE " instead of " \o S!RStr(S!Value(ev.d, ev.code, ev.p, ev.o, s))))
  /\ l' = l + 1
  /\ V!Done(l)
TraceSpec == l = 1 /\ [][TStat \/ TCritical]_vars
=============================================================================
