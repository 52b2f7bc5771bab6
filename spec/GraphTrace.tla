------------------------------ MODULE GraphTrace ------------------------------
(* Recorded: values of graph statistics.  Samples marked exact have joining distances without rounding. *)
EXTENDS Graph, Verdict
VARIABLES l
vars == <<l>>
TGraph ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l] key == ev.d \o "-" \o ev.code IN
     IF ~ev.ok THEN Bad(l, "raised-" \o key, ev.txt \o ": " \o ev.err)
     ELSE \A x \in {TLCEval(RSort(Points(ev.d, ev.p, RSort(ev.xs))))} : \A r \in {TLCEval(Distance(ev.d, x))} :
       \* off the exact grids a pair within rounding of the distance may fall on either side
       Clause(\/ Close(ev.val, GraphValue(ev.code, x, r))
              \/ ~ev.exact /\ \E f \in {"0.999999999999", "1.000000000001"} : Close(ev.val, GraphValue(ev.code, x, r (.) D(f))),
              l, "value-" \o key, ev.txt \o ": " \o RStr(ev.val) \o " instead of " \o RStr(GraphValue(ev.code, x, r)))
  /\ l' = l + 1 /\ Done(l)
TraceSpec == l = 1 /\ [][TGraph]_vars
=============================================================================
