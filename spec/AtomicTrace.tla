---------------------------- MODULE AtomicTrace ----------------------------
(***************************************************************************)
(* Validates recorded bulk stores, statement by statement, against the     *)
(* multi-step batch of Storage: begin, statements (with what a reader on   *)
(* another connection saw between them), and an end that is a normal       *)
(* return, a raised error, or the death of the process.                    *)
(***************************************************************************)
EXTENDS Storage, Verdict

VARIABLE l
tvars == <<vars, l>>
Batch(ev) == IF Has(ev, "range")
             THEN [i \in 1..ev.range |-> [e |-> 1, c |-> "A", p |-> 0, n |-> 10, m |-> 100 + i, v |-> 1]]
             ELSE ev.batch
\* PutAll for batches of any length
Store(d, b) == LET last == {i \in 1..Len(b) : \A j \in (i + 1)..Len(b) : Key(b[j]) # Key(b[i])}
                   new == {b[i] : i \in last}
                   keys == {Key(r) : r \in new}
               IN {r \in d : Key(r) \notin keys} \cup new
StoreRange(d, k) == d \cup {[e |-> 1, c |-> "A", p |-> 0, n |-> 10, m |-> 100 + i, v |-> 1] : i \in 1..k}
Whole(ev, d) == IF Has(ev, "range") THEN StoreRange(d, ev.range) ELSE Store(d, ev.batch)

Says(ev) == "case " \o ToString(ev.hid) \o " mode " \o ev.mode \o " point " \o ToString(ev.k) \o ": "
ObsMatch(ev, d) == \A i \in 1..Len(ev.obs) : ev.obs[i].ok /\ GetOk(d, ev.obs[i].q, ev.obs[i].r)
ObsText(ev) == ToString([i \in 1..Len(ev.obs) |-> IF ev.obs[i].ok THEN ev.obs[i].r ELSE ev.obs[i].err])

Step == l' = l + 1 /\ UNCHANGED ret /\ Done(l)
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o

TReset == IsEvent("reset") /\ db' = {} /\ tx' = <<>> /\ Step
TPre == IsEvent("pre") /\ db' = Store(db, Trace[l].batch) /\ UNCHANGED tx /\ Step
\* the batch starts: Storage!BulkBegin (staged is computed whole; staging order is invisible)
TBegin == IsEvent("begin") /\ LET ev == Trace[l] IN
   /\ tx' = <<[todo |-> <<>>, staged |-> Whole(ev, db)]>> /\ UNCHANGED db /\ Step
\* between two statements a reader sees the content before the batch
TStmt == IsEvent("stmt") /\ LET ev == Trace[l] IN
   /\ Clause(ObsMatch(ev, db), l, "partial-visible", Says(ev) \o ev.what \o " reader saw " \o ObsText(ev))
   /\ UNCHANGED <<db, tx>> /\ Step
\* the call returned: Storage!BulkCommit or Storage!BulkFail
TEnd == IsEvent("end") /\ LET ev == Trace[l] IN
   /\ tx' = <<>>
   /\ Clause(ev.ok <=> ev.mode = "read", l, IF ev.ok THEN "fault-swallowed" ELSE "batch-raised", Says(ev) \o ev.err)
   /\ db' = IF ev.ok THEN tx[1].staged ELSE db
   /\ Clause(ObsMatch(ev, db'), l, IF ev.ok THEN "incomplete-batch" ELSE "partial-after-error",
             Says(ev) \o "afterwards " \o ObsText(ev))
   /\ Step
\* the process died somewhere inside the call: all or nothing
TCrash == IsEvent("crash") /\ LET ev == Trace[l] IN
   /\ tx' = <<>>
   /\ db' = IF ObsMatch(ev, tx[1].staged) THEN tx[1].staged ELSE db
   /\ Clause(ObsMatch(ev, db'), l, "partial-after-crash", Says(ev) \o "after restart " \o ObsText(ev))
   /\ Step
\* the same storage object works after a failed batch
TRetry == IsEvent("retry") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "unusable-after-error", Says(ev) \o ev.err)
   /\ db' = IF ev.ok THEN Whole(ev, db) ELSE db
   /\ Clause(~ev.ok \/ ObsMatch(ev, db'), l, "retry-content", Says(ev) \o "after retry " \o ObsText(ev))
   /\ UNCHANGED tx /\ Step

TraceInit == Init /\ l = 1
TraceNext == TReset \/ TPre \/ TBegin \/ TStmt \/ TEnd \/ TCrash \/ TRetry
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
