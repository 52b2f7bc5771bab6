--------------------------- MODULE RegistryTrace ---------------------------
(***************************************************************************)
(* Validates what processes were answered (import and query histories) and *)
(* what every statistic class says about itself.                           *)
(***************************************************************************)
EXTENDS Verdict, Real64, FiniteSets

VARIABLES l, seen, loaded, answer, calls, defined
vars == <<l, seen, loaded, answer, calls, defined>>
INSTANCE Registry WITH Modules <- {}, Queries <- {}, MaxCalls <- 0, OwnFamilies <- {}, OwnCodes <- {}

IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l) /\ UNCHANGED <<answer, calls>>
Range(s) == {s[i] : i \in 1..Len(s)}
Dups(s) == {s[i] : i \in {i \in 1..Len(s) : \E j \in 1..Len(s) : j # i /\ s[j] = s[i]}}

TReset == IsEvent("reset") /\ defined' = {} /\ loaded' = {} /\ seen' = {} /\ Step
TImport == IsEvent("import") /\ LET ev == Trace[l] IN
  /\ Clause(ev.ok, l, "import-" \o ev.m, "importing " \o ev.m \o " raised " \o ev.err)
  /\ loaded' = loaded \cup Provides(ev.m) /\ UNCHANGED <<seen, defined>> /\ Step
Loaded == ToString(loaded)
TAsk == IsEvent("ask") /\ LET ev == Trace[l] txt == ev.q \o "(" \o ev.d \o ") after " \o Loaded \o " " IN
  /\ Clause(ev.ok, l, "ask-" \o ev.q \o "-raised-" \o ev.d, txt \o "raised " \o ev.err)
  /\ ev.ok =>
       IF ev.q = "criteria"
       THEN /\ \A all \in {Catalogue(ev.d) \cup Own(ev.d, defined)} :
                 /\ Clause(all \subseteq Range(ev.got), l, "criteria-missing-" \o ev.d, txt \o "misses " \o ToString(all \ Range(ev.got)))
                 /\ Clause(Range(ev.got) \subseteq all, l, "criteria-foreign-" \o ev.d, txt \o "lists " \o ToString(Range(ev.got) \ all))
            /\ \A c \in Dups(ev.got) :
                 IF ev.d = "weibull" /\ c = "SB" /\ Cardinality({i \in 1..Len(ev.got) : ev.got[i] = c}) = 2
                 THEN Dev(l, "weibull-SB-twice", "weibull lists SB twice")
                 ELSE Bad(l, "criteria-duplicate-" \o ev.d, txt \o "lists " \o c \o " more than once")
       ELSE Clause(ev.got = <<ev.d>>, l, ev.q \o "-of-" \o ev.d, txt \o "answers " \o ToString(ev.got))
  /\ loaded' = loaded \cup Needs(ev.q) /\ UNCHANGED <<seen, defined>> /\ Step
TDefine == IsEvent("define") /\ LET ev == Trace[l] IN
  /\ Clause(ev.ok, l, "define-raised-" \o ev.d, "defining a statistic of " \o ev.d \o " raised " \o ev.err)
  /\ defined' = IF ev.ok /\ ev.how # "abstract" THEN defined \cup {<<ev.d, ev.c>>} ELSE defined
  /\ loaded' = loaded \cup {"base"} /\ UNCHANGED seen /\ Step
TSpoil == IsEvent("spoil") /\ UNCHANGED <<seen, loaded, defined>> /\ Step

\* the null parameters in the terms of the family's generator
Cal == INSTANCE Calibration
HypothesisOf(d, g) == Cal!HypothesisOf(d, g)
\* a few statistics of a composite null fix some parameters themselves: the hypothesis has the defaults there
Agree(h, e) == DOMAIN h = DOMAIN e /\ \A x \in DOMAIN e : CloseTol(h[x], e[x], RDec("1e-14"))
TStat == IsEvent("stat") /\ LET ev == Trace[l] txt == ev.d \o "/" \o ev.short \o " (" \o ev.cls \o ") " key == ev.d \o "-" \o ev.short IN
  /\ Clause(ev.ok, l, "stat-raised-" \o key, txt \o "raised " \o ev.err)
  /\ ev.ok =>
     /\ Clause(ev.short \in Catalogue(ev.d) /\ ev.dist = ev.d, l, "stat-distribution-" \o key, txt \o "reports " \o ev.dist)
     /\ Clause(ev.code = FullCode(ev.d, ev.short), l, "stat-code-" \o key, txt \o "has code " \o ev.code)
     /\ Clause(ev.icode = ev.code /\ ev.ishort = ev.short, l, "stat-code-instance-" \o key, txt \o "has code " \o ev.icode \o " on an instance")
     /\ Clause(ev.alt = (IF ev.asked = "" THEN Alternative(ev.d, ev.short) ELSE ev.asked) /\ ev.alt2 = ev.alt, l, "stat-alternative-" \o key,
               txt \o "reports alternative " \o ev.alt \o " (asked for: " \o ev.asked \o ")")
     /\ \A h \in {HypothesisOf(ev.d, ev.given)} :
          /\ Clause(DOMAIN ev.hyp = DOMAIN h, l, "hypothesis-names-" \o key, txt \o "hypothesis has parameters " \o ToString(DOMAIN ev.hyp))
          /\ Clause(DOMAIN ev.hyp # DOMAIN h \/ Agree(ev.hyp, h), l, "hypothesis-values-" \o key,
                    txt \o "hypothesis parameters " \o ToString([x \in DOMAIN ev.hyp |-> RStr(ev.hyp[x])]) \o " for "
                        \o ToString([x \in DOMAIN ev.given |-> RStr(ev.given[x])]))
     /\ Clause(ev.plist = ev.vals, l, "hypothesis-list-" \o key, txt \o "hypothesis lists other values than it maps")
  /\ IF ev.first /\ <<ev.d, ev.code>> \in {<<x[1], x[2]>> : x \in seen}
     THEN IF ev.d = "weibull" /\ ev.short = "SB" THEN Dev(l, "weibull-SB-twice", "weibull: two statistics have code SB")
          ELSE Bad(l, "stat-code-shared-" \o key, txt \o "shares its code with another statistic")
     ELSE TRUE
  /\ seen' = IF ev.first THEN seen \cup {<<ev.d, ev.code, ev.short>>} ELSE seen
  /\ UNCHANGED <<loaded, defined>> /\ Step
TDone == IsEvent("done")
  /\ \A d \in Families : Clause(Catalogue(d) \subseteq {x[3] : x \in {y \in seen : y[1] = d}}, l, "stat-missing-" \o d, "no class for some statistics of " \o d)
  /\ UNCHANGED <<seen, loaded, defined>> /\ Step

TraceInit == l = 1 /\ seen = {} /\ loaded = {} /\ answer = <<>> /\ calls = 0 /\ defined = {}
TraceSpec == TraceInit /\ [][TReset \/ TImport \/ TAsk \/ TDefine \/ TSpoil \/ TStat \/ TDone]_vars
=============================================================================
