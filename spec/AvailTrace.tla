---------------------------- MODULE AvailTrace ----------------------------
(* Validates recorded openings, failures and repairs against Avail. *)
EXTENDS Avail, Verdict
VARIABLE l
tvars == <<vars, l>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)
Says(ev) == "history " \o ToString(ev.hid) \o " step " \o ToString(ev.i) \o " " \o ev.op \o " " \o ev.t \o ": "

TReset == IsEvent("reset") /\ content' = [t \in Good |-> {}] /\ broken' = {} /\ open' = {} /\ ret' = "none" /\ n' = 0 /\ Step
\* a storage returned by safe creation is usable at once: a probe of every operation works on it
TCreate == IsEvent("create") /\ LET ev == Trace[l] IN
   /\ CreateSafe(ev.t)
   /\ Clause(ev.out = ret', l, "create-" \o ret' \o "-got-" \o ev.out, Says(ev) \o ev.err)
   /\ Clause(ev.out # "storage" \/ ev.probe = "ok", l, "half-open", Says(ev) \o ev.probe)
   /\ Step
TInit == IsEvent("init") /\ LET ev == Trace[l] IN
   /\ InitCall(ev.t)
   /\ Clause(ev.out = ret', l, "init-" \o ret' \o "-got-" \o ev.out, Says(ev) \o ev.err)
   /\ Clause(ev.out # "ok" \/ ev.probe = "ok", l, "not-initialised", Says(ev) \o ev.probe)
   /\ Step
TPut == IsEvent("put") /\ LET ev == Trace[l] IN
   /\ Put(ev.t, ev.v) /\ Clause(ev.out = "ok", l, "put-" \o ev.out, Says(ev) \o ev.err) /\ Step
TBreak == IsEvent("break") /\ Break(Trace[l].t) /\ Step
TRepair == IsEvent("repair") /\ Repair(Trace[l].t) /\ Step
\* what a fresh connection finds in every usable database
TSee == IsEvent("see") /\ LET ev == Trace[l] IN
   /\ Clause(Usable(ev.t) => SetOf(ev.vals) = content[ev.t], l, "content-changed",
             Says(ev) \o "expected " \o ToString(content[ev.t]) \o " saw " \o ToString(ev.vals) \o " " \o ev.err)
   /\ UNCHANGED vars /\ Step
TraceInit == Init /\ l = 1
TraceNext == TReset \/ TCreate \/ TInit \/ TPut \/ TBreak \/ TRepair \/ TSee
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
