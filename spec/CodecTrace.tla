----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Validates recorded round trips of the real codec and storage against    *)
(* Codec, with real numbers for the abstract elements: Round is rounding   *)
(* to binary32 (or the identity).                                          *)
(***************************************************************************)
EXTENDS Verdict, Real64

VARIABLE l
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)

\* equal up to single-precision rounding / exactly
Same32(x, y) == LET r == RF32(x) IN
   REq(y, r) \/ RLe(RAbs(RSub(y, x)), RMul(RDec("1.2e-7"), RAbs(x))) \/ (RLt(RAbs(x), RDec("1e-38")) /\ RLe(RAbs(RSub(y, x)), RDec("1e-44")))
Same(x, y, w) == IF RIsNaN(x) \/ RIsNaN(y) THEN RIsNaN(x) /\ RIsNaN(y) ELSE IF w THEN REq(x, y) ELSE Same32(x, y)
BadAt(ev) == {i \in 1..Len(ev.val) : ~Same(ev.val[i], ev.got[i], ev.wide)}

\* value written and read back (through the database or through the codec alone)
TRound == IsEvent("round") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, ev.via \o "-raised", ev.what \o " " \o ev.err)
   /\ Clause(~ev.ok \/ Len(ev.got) = Len(ev.val), l, ev.via \o "-length",
             ev.what \o " stored " \o ToString(Len(ev.val)) \o " read " \o ToString(Len(ev.got)))
   /\ IF ev.ok /\ Len(ev.got) = Len(ev.val) /\ BadAt(ev) # {}
      THEN LET i == CHOOSE i \in BadAt(ev) : TRUE
           IN Bad(l, ev.via \o "-value", ev.what \o " element " \o ToString(i) \o " stored " \o RStr(ev.val[i]) \o " read " \o RStr(ev.got[i]))
      ELSE TRUE
   /\ Step
\* a list too long to record: its length and the elements at the recorded positions
TLong == IsEvent("long") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, ev.via \o "-raised", ev.what \o " " \o ev.err)
   /\ Clause(~ev.ok \/ ev.m = ev.n, l, ev.via \o "-length", ev.what \o " stored " \o ToString(ev.n) \o " read " \o ToString(ev.m))
   /\ IF ev.ok /\ ev.m = ev.n /\ BadAt(ev) # {}
      THEN LET i == CHOOSE i \in BadAt(ev) : TRUE
           IN Bad(l, ev.via \o "-value", ev.what \o " element " \o ToString(ev.at[i] + 1) \o " stored " \o RStr(ev.val[i]) \o " read " \o RStr(ev.got[i]))
      ELSE TRUE
   /\ Step
TNone == IsEvent("none") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok /\ ev.isnone, l, "none", ev.what \o " " \o ev.err) /\ Step
\* damaged data: header damage is refused with ValueError, a short body with any error
TDamage == IsEvent("damage") /\ LET ev == Trace[l] IN
   /\ Clause(~ev.ok, l, "damage-accepted-" \o ev.kind, ev.what \o " gave " \o ev.err)
   /\ Clause(ev.ok \/ ev.kind = "body" \/ ev.exc = "ValueError", l, "damage-error-" \o ev.kind, ev.what \o " " \o ev.err)
   /\ Step

TraceInit == l = 1
TraceNext == TRound \/ TLong \/ TNone \/ TDamage
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
