--------------------------- MODULE StorageTrace ---------------------------
(***************************************************************************)
(* Validates recorded histories of the real storage against Storage.       *)
(* Every line is one public call with its arguments, its answer, and what  *)
(* another storage object on the same database saw right after it.         *)
(***************************************************************************)
EXTENDS Storage, Verdict

VARIABLE l
tvars == <<vars, l>>

SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
Says(ev) == "history " \o ToString(ev.hid) \o " step " \o ToString(ev.i) \o " " \o ev.op \o " "

\* what the reader saw agrees with the content d
ObsOk(ev, d) ==
  \A i \in 1..Len(ev.obs) : \A o \in {ev.obs[i]} : \A q \in {o.q} : \A M \in {Matching(d, q)} :
    /\ Clause(o.ok, l, "lookup-raised-" \o (IF Cardinality(M) > 1 THEN "several" ELSE "one"),
              Says(ev) \o ToString(q) \o " " \o o.err)
    /\ Clause(~o.ok \/ (IF M = {} THEN o.r = <<>> ELSE Len(o.r) = 1 /\ o.r[1] \in M), l, "content",
              Says(ev) \o "saw " \o ToString(o.r) \o " for " \o ToString(q) \o " expected one of " \o ToString(M))

Step(ev) == /\ l' = l + 1 /\ UNCHANGED <<tx, ret>> /\ Done(l)
Raised(ev, clause) == Clause(ev.ok, l, clause, Says(ev) \o ev.err)

IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o

TReset == IsEvent("reset") /\ db' = {} /\ Step(Trace[l])
TPut == IsEvent("put") /\ LET ev == Trace[l] IN
   /\ db' = IF ev.ok THEN PutRec(db, ev.rec) ELSE db
   /\ Raised(ev, "put-raised") /\ ObsOk(ev, db') /\ Step(ev)
TDel == IsEvent("del") /\ LET ev == Trace[l] IN
   /\ Raised(ev, "delete-raised-" \o (IF Cardinality(Matching(db, ev.q)) > 1 THEN "several" ELSE "one"))
   /\ db' = IF ev.ok THEN DelRecs(db, ev.q) ELSE db
   /\ ObsOk(ev, db') /\ Step(ev)
TGet == IsEvent("get") /\ LET ev == Trace[l] IN
   /\ Raised(ev, "lookup-raised-" \o (IF Cardinality(Matching(db, ev.q)) > 1 THEN "several" ELSE "one"))
   /\ Clause(~ev.ok \/ GetOk(db, ev.q, ev.res), l, "lookup",
             Says(ev) \o ToString(ev.q) \o " answered " \o ToString(ev.res) \o " expected one of " \o ToString(Matching(db, ev.q)))
   /\ UNCHANGED db /\ ObsOk(ev, db) /\ Step(ev)
TCv == IsEvent("cv") /\ LET ev == Trace[l] q == [c |-> ev.c, n |-> ev.n, t |-> ev.t] IN
   /\ Raised(ev, "cv-raised")
   /\ Clause(~ev.ok \/ CvOk(db, q, ev.res), l, IF ev.t = 0 THEN "cv" ELSE "cv-tolerance",
             Says(ev) \o ToString(q) \o " answered " \o ToString(ev.res) \o " expected one of "
             \o ToString(Best(CvMatching(db, q))))
   /\ UNCHANGED db /\ ObsOk(ev, db) /\ Step(ev)
TBulkGet == IsEvent("bulkget") /\ LET ev == Trace[l] IN
   /\ Raised(ev, "bulkget-raised")
   /\ Clause(~ev.ok \/ BulkOk(db, SetOf(ev.cs), ev.n, ev.t, ev.res), l, "bulkget",
             Says(ev) \o ToString(ev.cs) \o " n=" \o ToString(ev.n) \o " t=" \o ToString(ev.t)
             \o " answered " \o ToString(ev.res))
   /\ UNCHANGED db /\ ObsOk(ev, db) /\ Step(ev)
\* a batch with a record the database cannot accept fails and leaves no trace
TBulk == IsEvent("bulk") /\ LET ev == Trace[l] IN
   /\ db' = IF ev.bad = 0 /\ ev.ok THEN PutAll(db, ev.batch) ELSE db
   /\ Clause(ev.ok <=> ev.bad = 0, l, IF ev.ok THEN "bulk-accepted-bad" ELSE "bulk-raised", Says(ev) \o ev.err)
   /\ ObsOk(ev, db') /\ Step(ev)
TInit == (IsEvent("init") \/ IsEvent("reopen") \/ IsEvent("end")) /\ LET ev == Trace[l] IN
   /\ Raised(ev, "init-raised") /\ UNCHANGED db /\ ObsOk(ev, db) /\ Step(ev)

TraceInit == Init /\ l = 1
TraceNext == TReset \/ TPut \/ TDel \/ TGet \/ TCv \/ TBulkGet \/ TBulk \/ TInit
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
