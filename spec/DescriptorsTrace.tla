-------------------------- MODULE DescriptorsTrace --------------------------
(* Validates what descriptors and validators say and accept. *)
EXTENDS Verdict, Dists, FiniteSets
VARIABLES l, done
vars == <<l, done>>
D == INSTANCE Descriptors
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l) /\ UNCHANGED done
Range(s) == {s[i] : i \in 1..Len(s)}
TTypes == IsEvent("types") /\ LET ev == Trace[l] IN
  /\ Clause(Len(ev.list) = 21 /\ Range(ev.list) = Families, l, "types-list", "DistributionType.list() is " \o ToString(ev.list))
  /\ Clause(ev.members = ev.list, l, "types-members", "members " \o ToString(ev.members))
  /\ Clause(ev.lookup = ev.list, l, "types-lookup", "lookup by value answers " \o ToString(ev.lookup))
  /\ Clause(ev.distinct, l, "types-distinct", "two members are equal")
  /\ Step
TDesc == IsEvent("desc") /\ LET ev == Trace[l] txt == "descriptor of " \o ev.d \o " " IN
  /\ Clause(ev.ok, l, "descriptor-raised-" \o ev.d, txt \o ev.err)
  /\ ev.ok =>
     /\ Clause(ev.classes = 1, l, "descriptor-classes-" \o ev.d, ToString(ev.classes) \o " descriptors for " \o ev.d)
     /\ Clause(ev.type = ev.d, l, "descriptor-type-" \o ev.d, txt \o "has type " \o ev.type)
     /\ Clause(Len(ev.names) = Cardinality(GenParams(ev.d)) /\ Range(ev.names) = GenParams(ev.d), l, "descriptor-names-" \o ev.d, txt \o "names " \o ToString(ev.names))
     /\ Clause(ev.again = ev.names, l, "descriptor-unstable-" \o ev.d, txt \o "names " \o ToString(ev.again) \o " the second time")
     /\ Clause(ev.draws, l, "descriptor-defaults-" \o ev.d, txt \o "defaults do not make a generator that draws: " \o ev.derr)
  /\ Step
TParam == IsEvent("param") /\ LET ev == Trace[l] txt == ev.d \o " parameter " \o ev.name \o " " key == ev.d \o "-" \o ev.name IN
  /\ ev.name \in GenParams(ev.d) =>
     /\ Clause(REq(ev.default, D!DefaultOf(ev.d, ev.name)), l, "default-" \o key, txt \o "has default " \o RStr(ev.default))
     /\ Clause(ev.labelled, l, "label-" \o key, txt \o "has no display name or no description")
     /\ \A i \in 1..Len(ev.vals) :
          LET v == ev.vals[i] IN
          D!Domain(ev.d, ev.name) # "any" \/ ev.validated =>
          Clause(ev.accepted[i] = (IF D!Accepts(D!Domain(ev.d, ev.name), v.x) THEN "yes" ELSE "no"), l, "accepts-" \o key,
                 txt \o "(" \o D!Domain(ev.d, ev.name) \o ") given " \o v.text \o " answers " \o ev.accepted[i])
  /\ Step
TraceSpec == (l = 1 /\ done = FALSE) /\ [][TTypes \/ TDesc \/ TParam]_vars
=============================================================================
