--------------------------- MODULE GeneratorsTrace ---------------------------
(***************************************************************************)
(* Validates recorded generator sessions.  pool[o] holds what object o     *)
(* drew so far, in order; "law" compares it with the declared law.         *)
(***************************************************************************)
EXTENDS Dists, Verdict, FiniteSets

VARIABLES l, objs, pool
vars == <<l, objs, pool>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)
Says(ev) == "session " \o ToString(ev.sid) \o " " \o ev.what \o " "

\* documented defaults (0 in a row: no parameter given)
Default(d) ==
  CASE d = "normal" -> [mean |-> Zero, var |-> One] [] d = "exponential" -> [lam |-> Half]
    [] d = "weibull" -> [a |-> One, k |-> RInt(5)] [] d = "uniform" -> [a |-> Zero, b |-> One]
    [] d = "gamma" -> [alfa |-> One, beta |-> One] [] d = "beta" -> [a |-> One, b |-> One]
    [] d = "log_normal" -> [s |-> One, mu |-> Zero] [] d = "chi_2" -> [df |-> Two]
    [] d = "gompertz" -> [eta |-> One, b |-> One] [] d = "gumbel" -> [mu |-> Zero, beta |-> One]
    [] d = "inv_gauss" -> [mu |-> One, lam |-> One] [] d = "lo_con_normal" -> [p |-> Half, a |-> Zero]
    [] d = "mix_con_normal" -> [p |-> Half, a |-> Zero, b |-> One] [] d = "rice" -> [nu |-> Zero, sigma |-> One]
    [] d = "scale_con_normal" -> [p |-> Half, b |-> One]
    [] d = "trunc_normal" -> [mean |-> Zero, var |-> One, a |-> RInt(-10), b |-> RInt(10)]
    [] OTHER -> <<>>
SameParams(p, q) == DOMAIN p = DOMAIN q /\ \A x \in DOMAIN p : REq(p[x], q[x])

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "_" \o Join(Tail(s))

Expected(ev) == IF ev.defaults THEN Default(ev.d) ELSE ev.given
Reported(ev, exp) ==
  /\ Clause(ev.type = ev.d, l, "type", Says(ev) \o "reports distribution " \o ev.type)
  /\ Clause(SameParams(ev.got, exp), l, "parameters-" \o ev.d, Says(ev) \o "reports " \o ev.gtext)
  /\ Clause(ev.defaults \/ ev.code = Join(ev.pieces), l, "code-" \o ev.d, Says(ev) \o "reports code " \o ev.code)
\* two objects have the same code exactly when they have the same law
CodesFaithful(ev) == \A o \in 1..Len(objs) :
  objs[o].ok /\ objs[o].d = ev.d => Clause((objs[o].code = ev.code) <=> (objs[o].rowtext = ev.rowtext), l, "code-ambiguous-" \o ev.d,
                                           Says(ev) \o "has code " \o ev.code \o ", another generator " \o objs[o].code)

TReset == IsEvent("reset") /\ objs' = <<>> /\ pool' = <<>> /\ Step
TMake == IsEvent("make") /\ LET ev == Trace[l] IN
   /\ IF ev.ok
      THEN Reported(ev, Expected(ev)) /\ CodesFaithful(ev)
      ELSE Clause(ev.defaults /\ Default(ev.d) = <<>>, l, "make-raised-" \o ev.d, Says(ev) \o ev.err)
   /\ objs' = Append(objs, [ok |-> ev.ok, d |-> ev.d, code |-> ev.code, rowtext |-> ev.rowtext,
                            params |-> IF ev.ok THEN Expected(ev) ELSE <<>>])
   /\ pool' = Append(pool, <<>>)
   /\ Step
TReport == IsEvent("report") /\ LET ev == Trace[l] IN
   /\ ev.ok => Reported(ev, objs[ev.o].params) /\ Clause(ev.code = objs[ev.o].code, l, "code-changed-" \o ev.d, Says(ev) \o ev.code)
   /\ Clause(ev.ok, l, "report-raised-" \o ev.d, Says(ev) \o ev.err)
   /\ UNCHANGED <<objs, pool>> /\ Step
\* the program wrote to the dictionaries it passed and was given: nothing happens to the object
TTamper == IsEvent("tamper") /\ UNCHANGED <<objs, pool>> /\ Step
TDraw == IsEvent("draw") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "draw-raised-" \o ev.d, Says(ev) \o ev.err)
   /\ ev.ok => /\ Clause(Len(ev.vals) = ev.n, l, "draw-size-" \o ev.d, Says(ev) \o "returned " \o ToString(Len(ev.vals)) \o " values, asked for " \o ToString(ev.n))
               /\ Clause(\A i \in 1..Len(ev.vals) : RFinite(ev.vals[i]), l, "draw-finite-" \o ev.d, Says(ev))
   /\ pool' = [pool EXCEPT ![ev.o] = @ \o ev.vals]
   /\ UNCHANGED objs /\ Step

\* u: the declared distribution function at the draws, in drawing order: uniform and independent
Uniform(ev, u, txt) == LET n == Len(u) IN
  /\ \A d \in {With(RSort(u), KsOf)} :
       Clause((RSqrt(RInt(n)) (.) d) \prec RDec("2.6"), l, "law-" \o ev.d, Says(ev) \o txt \o " (" \o ToString(n) \o ") at distance " \o RStr(d))
  /\ n < 200 \/ \A k \in {1, 2, 3} : \A r \in {(RInt(12) (/) RInt(n)) (.) RSum([i \in 1..(n - k) |-> (u[i] (-) Half) (.) (u[i + k] (-) Half)])} :
       Clause((RSqrt(RInt(n)) (.) RAbs(r)) \prec RInt(5), l, "dependent-" \o ev.d,
              Says(ev) \o txt \o " (" \o ToString(n) \o ") correlate at lag " \o ToString(k) \o ": " \o RStr(r))
TLaw == IsEvent("law") /\ LET ev == Trace[l] o == ev.o IN
   /\ objs[o].ok /\ pool[o] # <<>> =>
      /\ \A s \in {TLCEval(RSort(pool[o]))} :
           Clause(\A i \in 1..(Len(s) - 1) : s[i] \prec s[i + 1], l, "repeats-" \o ev.d, Says(ev) \o "repeated values")
      /\ \A u \in {TLCEval([i \in 1..Len(pool[o]) |-> Cdf(ev.d, objs[o].params, pool[o][i])])} : Uniform(ev, u, "draws")
   /\ UNCHANGED <<objs, pool>> /\ Step
\* different generators draw different values, even when they declare the same law
TEnd == IsEvent("end") /\ LET ev == Trace[l] IN
   /\ \A o \in 1..Len(objs) : \A q \in (o + 1)..Len(objs) : pool[o] # <<>> /\ pool[q] # <<>> =>
        Clause(\A i \in 1..3, j \in 1..3 : i > Len(pool[o]) \/ j > Len(pool[q]) \/ ~REq(pool[o][i], pool[q][j]), l, "shared-draws",
               "session " \o ToString(ev.sid) \o " generators " \o ToString(o) \o " and " \o ToString(q) \o " drew the same values")
   /\ UNCHANGED <<objs, pool>> /\ Step

\* very many draws of one object, in calls of changing size: a continuous law does not repeat itself
TFresh == IsEvent("fresh") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "draw-raised-" \o ev.d, ev.what \o " " \o ev.err)
   /\ ev.ok => Clause(ev.drawn = ev.asked /\ 1000 * (ev.drawn - ev.distinct) <= ev.drawn, l, "repeats-" \o ev.d,
                      ev.what \o " drew " \o ToString(ev.drawn) \o " values, " \o ToString(ev.distinct) \o " different")
   /\ UNCHANGED <<objs, pool>> /\ Step

TraceInit == l = 1 /\ objs = <<>> /\ pool = <<>>
TraceNext == TReset \/ TMake \/ TTamper \/ TReport \/ TDraw \/ TLaw \/ TFresh \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
