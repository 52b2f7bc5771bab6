---------------------------- MODULE AdmissionTrace ----------------------------
(* Recorded: what became of constructor calls and evaluations. *)
EXTENDS Integers, Sequences
V == INSTANCE Verdict
A == INSTANCE Admission
VARIABLES l
vars == <<l>>
Ev == V!Trace[l]
Key == Ev.d \o "-" \o Ev.code
TCtor == Ev.op \in {"ctor", "opt"} /\
  V!Clause(Ev.out = (IF A!ParamsOk(Ev.d, Ev.code, Ev.p) /\ A!OptionsOk(Ev.d, Ev.code, Ev.o) THEN "built" ELSE "refused"), l,
           (IF Ev.op = "ctor" THEN "parameters-" ELSE "options-") \o Key, Ev.txt)
TEval == Ev.op = "sample" /\ \A w \in {A!TLCEval(A!Permitted(Ev.d, Ev.code, Ev.p, Ev.xs))} :
  V!Clause(Ev.out \in w, l, "sample-" \o Key, Ev.txt \o " where " \o V!ToString(w) \o " is specified")
TStep == l <= Len(V!Trace) /\ (TCtor \/ TEval) /\ l' = l + 1 /\ V!Done(l)
TraceSpec == l = 1 /\ [][TStep]_vars
=============================================================================
