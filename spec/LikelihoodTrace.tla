--------------------------- MODULE LikelihoodTrace ---------------------------
(* Recorded: likelihoods of samples, and of the same samples in another order; *)
(* searches for the family with the largest likelihood.                        *)
EXTENDS Integers, Sequences
V == INSTANCE Verdict
S == INSTANCE Likelihood
VARIABLES l
vars == <<l>>
Ev == V!Trace[l]
TLik == Ev.op = "lik" /\
  IF ~Ev.ok THEN V!Bad(l, "raised-" \o Ev.f, Ev.txt \o ": " \o Ev.err)
  ELSE /\ V!Clause(S!CloseTol(S!RLog(Ev.val), S!RLog(Ev.val2), S!RDec("1e-4")), l, "order-" \o Ev.f,
                   Ev.txt \o ": " \o S!RStr(Ev.val) \o ", in another order " \o S!RStr(Ev.val2))
       /\ \A a \in {S!TLCEval(S!Answer(Ev.f, Ev.xs, Ev.m))} :
            V!Clause(S!Agrees(Ev.f, a, Ev.val, Ev.xs), l, "value-" \o Ev.f, Ev.txt \o ": " \o S!RStr(Ev.val) \o " instead of " \o S!Shown(a))
TPure == Ev.op = "same" /\ V!Clause(Ev.same, l, "purity-" \o Ev.f, Ev.txt \o " changed its sample")
\* the search: the family it names has the value it returns, and no family has a larger one
TSearch == Ev.op = "search" /\
  IF Ev.kind \in {"ValueError", "TypeError"} THEN V!Clause(~Ev.ok /\ Ev.exc = Ev.kind, l, "search-accepts", Ev.txt)
  ELSE IF ~Ev.ok THEN V!Bad(l, "search-raised", Ev.txt \o ": " \o Ev.err)
  ELSE V!Clause(/\ \E i \in 1..Len(Ev.all) : Ev.all[i].f = Ev.f /\ S!REq(Ev.all[i].v, Ev.val)
                /\ \A i \in 1..Len(Ev.all) : S!RLe(Ev.all[i].v, Ev.val), l, "search", Ev.txt \o ": " \o Ev.f \o " " \o S!RStr(Ev.val))
TStep == l <= Len(V!Trace) /\ (TLik \/ TPure \/ TSearch) /\ l' = l + 1 /\ V!Done(l)
TraceSpec == l = 1 /\ [][TStep]_vars
=============================================================================
