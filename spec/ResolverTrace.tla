--------------------------- MODULE ResolverTrace ---------------------------
(* Validates recorded histories of the storage-backed resolver. *)
EXTENDS Resolver, Verdict
VARIABLE l
tvars == <<vars, l>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ UNCHANGED <<tx, ret>> /\ Done(l)
Says(ev) == "history " \o ToString(ev.hid) \o " step " \o ToString(ev.i) \o " " \o ev.op \o " "
TReset == IsEvent("reset") /\ db' = {} /\ Step
TPut == IsEvent("put") /\ db' = PutRec(db, Trace[l].rec) /\ Clause(Trace[l].ok, l, "put-raised", Trace[l].err) /\ Step
TDel == IsEvent("del") /\ db' = DelRecs(db, Trace[l].q) /\ Clause(Trace[l].ok, l, "delete-raised", Trace[l].err) /\ Step
TResolve == IsEvent("resolve") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "resolve-raised", Says(ev) \o ev.err)
   /\ IF ~ev.ok \/ ResolveOk(db, ev.c, ev.p, ev.n, ev.res) THEN TRUE
      ELSE IF ev.res = <<>> /\ OnlyCount1(db, ev.c, ev.p, ev.n)
      THEN Dev(l, "only-count-1", Says(ev) \o "found nothing although stored: " \o ToString(Literal(db, ev.c, ev.p, ev.n)))
      ELSE IF ev.res = <<>> /\ OtherSpelling(db, ev.c, ev.p, ev.n)
      THEN Dev(l, "params-int-float", Says(ev) \o "found nothing although stored: " \o ToString(Stored(db, ev.c, ev.p, ev.n)))
      ELSE Bad(l, "resolve", Says(ev) \o "code " \o ev.c \o " params " \o ToString(ev.p) \o " size " \o ToString(ev.n) \o " gave "
               \o ToString(ev.res) \o " expected one of " \o ToString(Stored(db, ev.c, ev.p, ev.n)))
   /\ Clause(ev.same, l, "resolve-modified", Says(ev) \o "changed the stored content")
   /\ UNCHANGED db /\ Step
TraceInit == Init /\ l = 1
TraceNext == TReset \/ TPut \/ TDel \/ TResolve
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
