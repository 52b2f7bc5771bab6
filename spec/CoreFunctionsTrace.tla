------------------------- MODULE CoreFunctionsTrace -------------------------
(***************************************************************************)
(* Judges recorded calls of the building blocks.  Results are compared     *)
(* element by element and in the shape of the argument; draws are pooled   *)
(* per sampler and compared with the law of its parameters.                *)
(***************************************************************************)
EXTENDS CoreFunctions, Verdict
VARIABLES l, pool, law
vars == <<l, pool, law>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)

Logs == {"generate_weibull_logcdf", "generate_weibull_logsf"}
TFn == IsEvent("fn") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "raised-" \o ev.f, ev.txt \o " " \o ev.err)
   /\ ev.ok =>
      /\ Clause(ev.outshape = ev.shape, l, "shape-" \o ev.f, ev.txt \o " returned shape " \o ToString(ev.outshape))
      /\ \A p \in {TLCEval(Over(ev.given, FnDefault(ev.f)))} :
         Len(ev.xs) = Len(ev.vals) => \A i \in 1..Len(ev.xs) : \A want \in {TLCEval(Fn(ev.f, p, ev.xs[i]))} :
           Clause(CloseTol(ev.vals[i], want, IF ev.f \in Logs THEN RDec("1e-6") ELSE RDec("1e-10"))
                  \* small probabilities are relatively accurate too (their logarithms near 0 are not)
                  /\ (RFinite(want) /\ ev.f \notin Logs /\ RDec("1e-290") \prec RAbs(want) =>
                        RAbs(ev.vals[i] (-) want) \preceq (RDec("1e-7") (.) RAbs(want))),
                  l, "value-" \o ev.f, ev.txt \o " at " \o RStr(ev.xs[i]) \o " gave " \o RStr(ev.vals[i]) \o " expected " \o RStr(want))
   /\ UNCHANGED <<pool, law>> /\ Step
TMoment == IsEvent("moment") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "raised-" \o ev.f, ev.txt \o " " \o ev.err)
   /\ ev.ok => Clause(Len(ev.vals) = Len(ev.cols), l, "shape-" \o ev.f, ev.txt)
   /\ ev.ok /\ Len(ev.vals) = Len(ev.cols) => \A i \in 1..Len(ev.cols) :
        \A want \in {TLCEval(IF ev.center = <<>> THEN CentralMoment(ev.cols[i], ev.k) ELSE Moment(ev.cols[i], ev.k, ev.center[1]))} :
        \* relative to the size of the terms that are averaged
        \A scale \in {TLCEval(RMean([j \in 1..Len(ev.cols[i]) |-> RAbs(PowI(ev.cols[i][j] (-) (IF ev.center = <<>> THEN RMean(ev.cols[i]) ELSE ev.center[1]), ev.k))]))} :
          Clause(RAbs(ev.vals[i] (-) want) \preceq ((RDec("1e-10") (.) scale) (+) RDec("1e-12")), l, "value-" \o ev.f,
                 ev.txt \o " gave " \o RStr(ev.vals[i]) \o " expected " \o RStr(want))
   /\ UNCHANGED <<pool, law>> /\ Step

\* a sampler with some of its parameters given
TSampler == IsEvent("sampler") /\ LET ev == Trace[l] d == SamplerFamily[ev.f] IN
   /\ pool' = <<>> /\ law' = [f |-> ev.f, d |-> d, p |-> LawParams(ev.f, Over(ev.given, SamplerDefault(d)))] /\ Step
TDraw == IsEvent("draw") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "raised-" \o law.f, ev.txt \o " " \o ev.err)
   /\ ev.ok => /\ Clause(ev.outshape = ev.shape, l, "shape-" \o law.f, ev.txt \o " returned shape " \o ToString(ev.outshape))
               /\ Clause(\A i \in 1..Len(ev.vals) : RFinite(ev.vals[i]), l, "finite-" \o law.f, ev.txt)
   /\ pool' = pool \o ev.vals
   /\ UNCHANGED law /\ Step
TLaw == IsEvent("law") /\ LET ev == Trace[l] n == Len(pool) IN
   /\ n > 0 => \A s \in {TLCEval(RSort(pool))} :
        /\ Clause(\A i \in 1..(n - 1) : s[i] \prec s[i + 1], l, "repeats-" \o law.f, ev.txt)
        /\ \A u \in {TLCEval([i \in 1..n |-> Cdf(law.d, law.p, pool[i])])} :
             /\ \A D \in {With(RSort(u), KsOf)} :
                  Clause((RSqrt(RInt(n)) (.) D) \prec RDec("2.6"), l, "law-" \o law.f,
                         ev.txt \o " draws (" \o ToString(n) \o ") at distance " \o RStr(D))
             /\ \A r \in {(RInt(12) (/) RInt(n)) (.) RSum([i \in 1..(n - 1) |-> (u[i] (-) Half) (.) (u[i + 1] (-) Half)])} :
                  Clause((RSqrt(RInt(n)) (.) RAbs(r)) \prec RInt(5), l, "dependent-" \o law.f, ev.txt \o " correlation " \o RStr(r))
   /\ UNCHANGED <<pool, law>> /\ Step

\* very many draws, in calls of changing size: a continuous law does not repeat itself
TFresh == IsEvent("fresh") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "raised-" \o ev.f, ev.txt \o " " \o ev.err)
   /\ ev.ok => Clause(ev.drawn = ev.asked /\ 1000 * (ev.drawn - ev.distinct) <= ev.drawn, l, "repeats-" \o ev.f,
                      ev.txt \o " drew " \o ToString(ev.drawn) \o " values, " \o ToString(ev.distinct) \o " different")
   /\ UNCHANGED <<pool, law>> /\ Step

TraceInit == l = 1 /\ pool = <<>> /\ law = <<>>
TraceNext == TFn \/ TMoment \/ TSampler \/ TDraw \/ TLaw \/ TFresh
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
