---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Recorded sessions.  heap: what each sample of the program looks like    *)
(* (type and elements) after its last write by the program; memo: values   *)
(* seen, by configuration and content; exact: the same by evaluation       *)
(* (configuration, content, order, container).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
V == INSTANCE Verdict
S == INSTANCE Statistics
VARIABLES l, heap, memo, exact
vars == <<l, heap, memo, exact>>
Ev == V!Trace[l]
IsEvent(o) == l <= Len(V!Trace) /\ Ev.op = o
Step == l' = l + 1 /\ V!Done(l)
None == [x \in {} |-> 0]
TReset == IsEvent("reset") /\ heap' = <<>> /\ memo' = None /\ exact' = None /\ Step
TSample == IsEvent("sample") /\ heap' = Append(heap, Ev.looks) /\ UNCHANGED <<memo, exact>> /\ Step
TOver == IsEvent("over") /\ heap' = [heap EXCEPT ![Ev.i] = Ev.looks] /\ UNCHANGED <<memo, exact>> /\ Step
TEval == IsEvent("eval") /\ LET key == Ev.d \o "-" \o Ev.code IN
  /\ V!Clause(Ev.heap = heap, l, "heap-" \o key, Ev.txt \o " changed a sample of the caller")
  /\ UNCHANGED heap
  /\ IF ~Ev.ok THEN V!Bad(l, "raised-" \o key, Ev.txt \o ": " \o Ev.err) /\ UNCHANGED <<memo, exact>>
     ELSE /\ IF Ev.exact \in DOMAIN exact
             THEN /\ V!Clause(exact[Ev.exact] = Ev.val, l, "repeat-" \o key, Ev.txt \o ": " \o S!RStr(Ev.val) \o " after " \o S!RStr(exact[Ev.exact]))
                  /\ UNCHANGED exact
             ELSE exact' = exact @@ (Ev.exact :> Ev.val)
          /\ IF Ev.memo \in DOMAIN memo
             THEN /\ IF S!CloseTol(Ev.val, memo[Ev.memo], S!RAdd(S!D("1e-9"), S!Tolerance(Ev.d, Ev.code))) THEN TRUE
                     ELSE IF key = "weibull-RSB" THEN V!Dev(l, "order-weibull-RSB", Ev.txt)
                     ELSE V!Bad(l, "order-" \o key, Ev.txt \o ": " \o S!RStr(Ev.val) \o " instead of " \o S!RStr(memo[Ev.memo]))
                  /\ UNCHANGED memo
             ELSE memo' = memo @@ (Ev.memo :> Ev.val)
  /\ Step
TraceSpec == (l = 1 /\ heap = <<>> /\ memo = None /\ exact = None) /\ [][TReset \/ TSample \/ TOver \/ TEval]_vars
=============================================================================
