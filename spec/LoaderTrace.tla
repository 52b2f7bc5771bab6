---------------------------- MODULE LoaderTrace ----------------------------
(***************************************************************************)
(* Validates recorded histories of the real loader over two storages.      *)
(* After each call the trace shows both contents; where the specification  *)
(* allows several (ties), the observation selects one.                     *)
(***************************************************************************)
EXTENDS Loader, Verdict
VARIABLE l
tvars == <<vars, l>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)
Says(ev) == "history " \o ToString(ev.hid) \o " step " \o ToString(ev.i) \o " (" \o ev.kind \o " storages) " \o ev.op \o " "
Sees(obs, d) == \A i \in 1..Len(obs) : obs[i].ok /\ S!GetOk(d, obs[i].q, obs[i].r)
Choose(cands, obs) == IF \E d \in cands : Sees(obs, d) THEN CHOOSE d \in cands : Sees(obs, d) ELSE CHOOSE d \in cands : TRUE
Text(obs) == ToString([i \in 1..Len(obs) |-> IF obs[i].ok THEN obs[i].r ELSE obs[i].err])
Contents(ev, clause) ==
  /\ Clause(Sees(ev.obsl, local'), l, clause \o "-local", Says(ev) \o "local shows " \o Text(ev.obsl) \o " expected " \o ToString(local'))
  /\ Clause(Sees(ev.obsr, remote'), l, clause \o "-remote", Says(ev) \o "remote shows " \o Text(ev.obsr) \o " expected " \o ToString(remote'))

TReset == IsEvent("reset") /\ local' = {} /\ remote' = {} /\ hasRemote' = Trace[l].has /\ ret' = [op |-> "none"] /\ Step
TPutLocal == IsEvent("putlocal") /\ PutLocal(Trace[l].rec) /\ Contents(Trace[l], "put") /\ Step
TPutRemote == IsEvent("putremote") /\ PutRemote(Trace[l].rec) /\ Contents(Trace[l], "put") /\ Step
TDropLocal == IsEvent("droplocal") /\ DropLocal(Trace[l].q) /\ Contents(Trace[l], "drop") /\ Step
TDropRemote == IsEvent("dropremote") /\ DropRemote(Trace[l].q) /\ Contents(Trace[l], "drop") /\ Step
\* many records at once
TFill == /\ IsEvent("fill")
         /\ local' = IF Trace[l].where = "local" THEN S!PutAll(local, Trace[l].rows) ELSE local
         /\ remote' = IF Trace[l].where = "remote" THEN S!PutAll(remote, Trace[l].rows) ELSE remote
         /\ ret' = [op |-> "none"] /\ UNCHANGED hasRemote
         /\ Contents(Trace[l], "put") /\ Step

TLoad == IsEvent("load") /\ LET ev == Trace[l]
                                q == Q(ev.c, ev.n, ev.t)
                                all == LoadResults(local, remote, hasRemote, q)
                                failing == ev.fail /\ all # {local}
   IN
   /\ local' = IF failing THEN local ELSE Choose(all, ev.obsl)
   /\ ret' = [op |-> "load"] /\ UNCHANGED <<remote, hasRemote>>
   /\ IF failing
      THEN Clause(~ev.ok \/ ~ev.ans, l, "load-claims-failed-store", Says(ev) \o ToString(q))
      ELSE /\ Clause(ev.ok, l, "load-raised", Says(ev) \o ToString(q) \o " " \o ev.err)
           /\ Clause(~ev.ok \/ ev.ans = LoadAnswer(local, remote, hasRemote, q), l,
                     "load-answer-" \o (IF ev.ans THEN "true" ELSE "false"),
                     Says(ev) \o ToString(q) \o " local " \o ToString(local) \o " remote " \o ToString(remote))
   /\ Contents(ev, "load") /\ Step

TBulk == IsEvent("bulk") /\ LET ev == Trace[l]
                                cs == SetOf(ev.cs)
                                all == BulkResults(local, remote, hasRemote, cs, ev.n, ev.t)
                                cnt == BulkCounts(local, remote, hasRemote, cs, ev.n, ev.t)
                                want == IF ev.fail THEN [cnt EXCEPT !.new = 0] ELSE cnt
                                what == Says(ev) \o ToString(ev.cs) \o " n=" \o ToString(ev.n) \o " t=" \o ToString(ev.t)
                                        \o (IF ev.fail THEN " with failing local store" ELSE "")
   IN
   /\ local' = IF ev.fail THEN local ELSE Choose(all, ev.obsl)
   /\ ret' = [op |-> "bulk"] /\ UNCHANGED <<remote, hasRemote>>
   /\ Clause(ev.ok, l, "bulk-raised", what \o " " \o ev.err)
   /\ Clause(~ev.ok \/ ev.req = want.req, l, "bulk-requested", what \o " reported " \o ToString(ev.req))
   /\ Clause(~ev.ok \/ ev.cached = want.cached, l, "bulk-cached", what \o " reported " \o ToString(ev.cached) \o " expected " \o ToString(want.cached))
   /\ Clause(~ev.ok \/ ev.new = want.new, l, IF ev.fail THEN "bulk-new-after-failure" ELSE "bulk-new",
             what \o " reported " \o ToString(ev.new) \o " expected " \o ToString(want.new))
   /\ Clause(~ev.ok \/ (SetOf(ev.missing) = want.missing /\ Len(ev.missing) = Cardinality(want.missing)), l, "bulk-not-found",
             what \o " reported " \o ToString(ev.missing) \o " expected " \o ToString(want.missing))
   /\ Contents(ev, "bulk") /\ Step

TraceInit == Init /\ hasRemote /\ l = 1
TraceNext == TReset \/ TFill \/ TPutLocal \/ TPutRemote \/ TDropLocal \/ TDropRemote \/ TLoad \/ TBulk
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
