--------------------------- MODULE DecisionTrace ---------------------------
(***************************************************************************)
(* Validates recorded p-values, critical values, acceptance regions,       *)
(* decisions and whole test runs against Decision.                         *)
(***************************************************************************)
EXTENDS Decision, Verdict

VARIABLES l,
          last    \* last decision of a nested series: <<alt, lim, t, method, level, rejected>>
vars == <<l, last>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)
Tol == RDec("1e-9")
Near(a, b) == CloseTol(a, b, Tol)
Show(s) == ToString([i \in 1..(IF Len(s) > 12 THEN 12 ELSE Len(s)) |-> RStr(s[i])])
Case(ev) == ev.alt \o " lim(" \o ToString(Len(ev.lim)) \o ")=" \o Show(ev.lim)
Lowest(s) == RMinOf(s)
Highest(s) == RMaxOf(s)
Slack(s) == RDec("1e-9") (.) RMaxOf(RAbs(s))

\* D01
TPValue == IsEvent("pvalue") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "pvalue-raised", Case(ev) \o " t=" \o RStr(ev.t) \o " " \o ev.err)
   /\ ev.ok => LET want == PValue(ev.alt, ev.lim, ev.t) IN
        /\ Clause(Near(ev.res[1], want), l, "pvalue-" \o ev.alt, Case(ev) \o " t=" \o RStr(ev.t) \o " gave " \o RStr(ev.res[1]) \o " expected " \o RStr(want))
        /\ Clause(Zero \preceq ev.res[1] /\ ev.res[1] \preceq One, l, "pvalue-range", RStr(ev.res[1]))
   /\ UNCHANGED last /\ Step

\* D02
TCv == IsEvent("cv") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "cv-raised", Case(ev) \o " a=" \o RStr(ev.a) \o " " \o ev.err)
   /\ ev.ok => LET want == CriticalValues(ev.alt, ev.lim, ev.a) IN
        /\ Clause(SameCritical(ev.alt, ev.lim, ev.a, ev.res), l, "cv-" \o ev.alt,
                  Case(ev) \o " a=" \o RStr(ev.a) \o " gave " \o Show(ev.res) \o " expected " \o Show(want))
        /\ Clause(\A i \in 1..Len(ev.res) : (Lowest(ev.lim) (-) Slack(ev.lim)) \preceq ev.res[i] /\ ev.res[i] \preceq (Highest(ev.lim) (+) Slack(ev.lim)),
                  l, "cv-range", Case(ev) \o " gave " \o Show(ev.res))
   /\ UNCHANGED last /\ Step

\* D03: the acceptance region as such
TArea == IsEvent("area") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok /\ (ev.res <=> ~Outside(ev.alt, ev.cv, ev.t)), l, "region-" \o ev.alt,
             "cv=" \o Show(ev.cv) \o " t=" \o RStr(ev.t) \o " inside=" \o ToString(ev.res) \o " " \o ev.err)
   /\ UNCHANGED last /\ Step

\* D03: a decision method on a known limit distribution
Decided(ev) ==
   /\ Clause(REq(ev.rstat, ev.t), l, "result-statistic", Case(ev) \o " t=" \o RStr(ev.t) \o " reported " \o RStr(ev.rstat))
   /\ Clause(REq(ev.rlevel, ev.a), l, "result-level", RStr(ev.a) \o " reported " \o RStr(ev.rlevel))
   /\ Clause(Len(ev.rp) + (IF ev.rcv = <<>> THEN 0 ELSE 1) = 1, l, "result-exactly-one", ev.method)
   /\ IF ev.method = "pvalue"
      THEN /\ Clause(Len(ev.rp) = 1 /\ Near(ev.rp[1], PValue(ev.alt, ev.lim, ev.t)), l, "decide-pvalue-" \o ev.alt,
                     Case(ev) \o " t=" \o RStr(ev.t) \o " reported " \o Show(ev.rp) \o " expected " \o RStr(PValue(ev.alt, ev.lim, ev.t)))
           /\ Clause(Len(ev.rp) # 1 \/ (ev.rejected <=> ev.rp[1] \preceq ev.a), l, "decide-rule-pvalue",
                     Case(ev) \o " p=" \o Show(ev.rp) \o " a=" \o RStr(ev.a) \o " rejected=" \o ToString(ev.rejected))
      ELSE LET want == CriticalValues(ev.alt, ev.lim, ev.a) IN
           /\ Clause(SameCritical(ev.alt, ev.lim, ev.a, ev.rcv), l, "decide-cv-" \o ev.alt,
                     Case(ev) \o " a=" \o RStr(ev.a) \o " reported " \o Show(ev.rcv) \o " expected " \o Show(want))
           /\ Clause(Len(ev.rcv) # Len(want) \/ (ev.rejected <=> Outside(ev.alt, ev.rcv, ev.t)), l, "decide-rule-cv",
                     Case(ev) \o " cv=" \o Show(ev.rcv) \o " t=" \o RStr(ev.t) \o " rejected=" \o ToString(ev.rejected))
TDecide == IsEvent("decide") /\ LET ev == Trace[l] IN
   /\ IF ev.lim = <<>>
      THEN Clause(~ev.ok /\ ev.exc = "ValueError", l, "missing-limit-distribution", ev.method \o " " \o ev.err)
      ELSE /\ Clause(ev.ok, l, "decide-raised", Case(ev) \o " " \o ev.err)
           /\ ev.ok => Decided(ev)
   \* series of the same question with growing levels are nested
   /\ (ev.ok /\ ev.series > 0 /\ last # <<>> /\ last[1] = ev.series)
        => Clause(last[2] => ev.rejected, l, "not-nested", Case(ev) \o " a=" \o RStr(ev.a) \o " accepted after a rejection at " \o RStr(last[3]))
   /\ last' = IF ev.ok /\ ev.series > 0 THEN <<ev.series, ev.rejected, ev.a>> ELSE last
   /\ Step

TraceInit == l = 1 /\ last = <<>>
TraceNext == TPValue \/ TCv \/ TArea \/ TDecide
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
