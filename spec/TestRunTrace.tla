---------------------------- MODULE TestRunTrace ----------------------------
(***************************************************************************)
(* Validates recorded test runs and Monte-Carlo resolutions (TestRun).     *)
(* A session is a sequence of calls; each call is                          *)
(*   call   what was asked: kind "test" or "resolve", sample size n,       *)
(*          expected number of simulations, null distribution and params   *)
(*   evals  the evaluations of the statistic during the call: how often on *)
(*          the observed sample, and in order the sizes, content ids and   *)
(*          values of all others                                           *)
(*   ret    what came back                                                 *)
(*   pool   the simulated observations of the call, for the law they follow *)
(***************************************************************************)
EXTENDS Decision, Dists, FiniteSets, Verdict

VARIABLES l, call, lim, seen
vars == <<l, call, lim, seen>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)
Tol == RDec("1e-9")
Near(a, b) == CloseTol(a, b, Tol)
Says == "session " \o ToString(Trace[l].sid) \o " "

TReset == IsEvent("reset") /\ call' = <<>> /\ lim' = <<>> /\ seen' = {} /\ Step
TCall == IsEvent("call") /\ call' = <<Trace[l]>> /\ lim' = <<>> /\ UNCHANGED seen /\ Step

\* evaluations: the observed sample once, and exactly sims fresh samples of size n, each once
TEvals == IsEvent("evals") /\ LET ev == Trace[l] c == call[1]
     n == Len(ev.ids)
     ids == TLCEval({ev.ids[i] : i \in 1..n}) IN
   /\ Clause(ev.nobs = (IF c.kind = "test" THEN 1 ELSE 0), l, "observed-evaluated-once",
             Says \o ToString(ev.nobs) \o " evaluations of the given sample")
   /\ Clause(n = c.sims, l, "simulation-count", Says \o c.what \o " evaluated " \o ToString(n) \o " simulated samples, expected " \o ToString(c.sims))
   /\ Clause(\A i \in 1..n : ev.sizes[i] = c.n, l, "simulated-size",
             Says \o c.what \o " simulated sizes " \o ToString({ev.sizes[i] : i \in 1..n}) \o ", expected " \o ToString(c.n))
   /\ Clause(Cardinality(ids) = n /\ ids \cap seen = {}, l, "simulated-fresh",
             Says \o c.what \o " reused simulated samples: " \o ToString(n) \o " evaluations, "
             \o ToString(Cardinality(ids)) \o " different samples, " \o ToString(Cardinality(ids \cap seen)) \o " seen before")
   /\ lim' = ev.vals
   /\ seen' = IF c.sims < 1000 THEN seen \cup ids ELSE seen
   /\ UNCHANGED call /\ Step

Show(s) == ToString([i \in 1..(IF Len(s) > 6 THEN 6 ELSE Len(s)) |-> RStr(s[i])])

\* resolve: the values in order
TResolved == IsEvent("resolved") /\ LET ev == Trace[l] c == call[1] IN
   /\ IF c.valid
      THEN /\ Clause(ev.ok, l, "resolve-raised", Says \o c.what \o " " \o ev.err)
           /\ Clause(~ev.ok \/ (Len(ev.res) = Len(lim) /\ \A i \in 1..Len(lim) : REq(ev.res[i], lim[i])), l, "limit-values",
                     Says \o c.what \o " returned " \o Show(ev.res) \o " (" \o ToString(Len(ev.res)) \o ") for evaluations " \o Show(lim))
      ELSE Clause(~ev.ok /\ ev.exc = "ValueError", l, "invalid-accepted", Says \o c.what \o " " \o ev.err)
   /\ UNCHANGED <<call, lim, seen>> /\ Step

\* the simulated observations follow the null law (Kolmogorov distance)
TPool == IsEvent("pool") /\ LET ev == Trace[l] IN
   /\ \A s \in {TLCEval(RSort(ev.draws))} : LET n == Len(s) IN
      /\ \A d \in {KsDistance(s, LAMBDA x : Cdf(ev.dist, ev.params, x))} :
         Clause((RSqrt(RInt(n)) (.) d) \prec RDec("2.6"), l, "null-law-" \o ev.dist,
                Says \o "pooled draws (" \o ToString(n) \o ") at distance " \o RStr(d) \o " from " \o ev.dist \o " " \o ev.ptext)
      /\ Clause(\A i \in 1..(n - 1) : s[i] \prec s[i + 1], l, "draws-repeat", Says \o "repeated observations from " \o ev.dist)
   /\ UNCHANGED <<call, lim, seen>> /\ Step

\* test: what the decision method was given and what came back
TDelegated == IsEvent("delegated") /\ LET ev == Trace[l] c == call[1] IN
   /\ Clause(ev.ok, l, "test-raised", Says \o c.what \o " " \o ev.err)
   /\ ev.ok =>
      /\ Clause(ev.calls = 1, l, "decide-once", Says \o "decide called " \o ToString(ev.calls) \o " times")
      /\ Clause(ev.calls = 0 \/ (REq(ev.value, c.value) /\ ev.samestat), l, "decide-value",
                Says \o c.what \o " passed " \o RStr(ev.value) \o ", the statistic is " \o RStr(c.value))
      /\ Clause(ev.calls = 0 \/ REq(ev.level, c.level), l, "decide-level", Says \o "passed level " \o RStr(ev.level))
      /\ Clause(ev.calls = 0 \/ ev.n = c.n, l, "decide-size", Says \o "passed size " \o ToString(ev.n) \o " for a sample of " \o ToString(c.n))
      /\ Clause(ev.same, l, "result-unchanged", Says \o "the decision method's result was not returned as it was")
   /\ Clause(ev.unmodified, l, "sample-modified", Says \o c.what)
   /\ UNCHANGED <<call, lim, seen>> /\ Step
TTested == IsEvent("tested") /\ LET ev == Trace[l] c == call[1] IN
   /\ Clause(ev.ok, l, "test-raised", Says \o c.what \o " " \o ev.err)
   /\ Clause(ev.unmodified, l, "sample-modified", Says \o c.what)
   /\ ev.ok =>
      LET L == IF c.given # <<>> THEN c.given ELSE lim
          cv == CriticalValues(c.alt, L, c.level)
          p == PValue(c.alt, L, c.value) IN
      /\ Clause(REq(ev.value, c.value), l, "test-statistic", Says \o c.what \o " reported " \o RStr(ev.value) \o " for " \o RStr(c.value))
      /\ Clause(REq(ev.level, c.level), l, "test-level", Says \o c.what \o " reported level " \o RStr(ev.level))
      /\ IF c.method = "pvalue"
         THEN /\ Clause(ev.rcv = <<>> /\ Len(ev.rp) = 1 /\ Near(ev.rp[1], p), l, "test-pvalue", Says \o c.what \o " reported " \o Show(ev.rp) \o " expected " \o RStr(p))
              /\ Clause(Len(ev.rp) # 1 \/ (ev.rejected <=> ev.rp[1] \preceq c.level), l, "test-decision", Says \o c.what)
         ELSE /\ Clause(ev.rp = <<>> /\ Len(ev.rcv) = Len(cv) /\ \A i \in 1..Len(cv) : Near(ev.rcv[i], cv[i]), l, "test-cv",
                        Says \o c.what \o " reported " \o Show(ev.rcv) \o " expected " \o Show(cv))
              /\ Clause(Len(ev.rcv) # Len(cv) \/ (ev.rejected <=> Outside(c.alt, ev.rcv, c.value)), l, "test-decision", Says \o c.what)
   /\ UNCHANGED <<call, lim, seen>> /\ Step

TraceInit == l = 1 /\ call = <<>> /\ lim = <<>> /\ seen = {}
TraceNext == TReset \/ TCall \/ TEvals \/ TResolved \/ TPool \/ TDelegated \/ TTested
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
