-------------------------- MODULE StatGroupsTrace --------------------------
(***************************************************************************)
(* Recorded: a statistic on a sample and on the transformed sample under   *)
(* the transformed null, and the hypotheses statistics state.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
V == INSTANCE Verdict
S == INSTANCE StatGroups
C == INSTANCE Calibration
VARIABLES l
vars == <<l>>
Ev == V!Trace[l]
SameVec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : S!CloseTol(a[i], b[i], S!D("1e-9"))
TPair == Ev.op = "pair" /\ LET key == Ev.d \o "-" \o Ev.code IN
  IF ~Ev.ok THEN V!Bad(l, "raised-" \o key, Ev.txt \o ": " \o Ev.err)
  ELSE /\ V!Clause(SameVec(Ev.xs2, S!TLCEval(S!ActX(Ev.t, Ev.xs))) /\ (IF Ev.composite THEN TRUE ELSE \A q \in DOMAIN Ev.p2 : S!Close(Ev.p2[q], S!ActP(Ev.d, Ev.t, Ev.p)[q])), l, "machinery", Ev.txt)
       /\ V!Clause(S!CloseTol(Ev.val2, S!RMul(Ev.val, S!Factor(Ev.d, Ev.code, Ev.t)), S!GroupTolerance(Ev.d, Ev.code)), l, "law-" \o key,
                   Ev.txt \o ": " \o S!RStr(Ev.val) \o " becomes " \o S!RStr(Ev.val2))
THyp == Ev.op = "hyp" /\ LET key == Ev.d \o "-" \o Ev.code IN
  IF ~Ev.ok THEN V!Bad(l, "raised-" \o key, Ev.txt \o ": " \o Ev.err)
  ELSE IF ~C!Expressible(Ev.d, Ev.p) THEN V!Dev(l, "student-loc-scale", Ev.txt \o ": location and scale are not in the hypothesis")
  ELSE \A h \in {C!HypothesisOf(Ev.d, Ev.p)} :
         V!Clause(DOMAIN Ev.got = DOMAIN h /\ \A q \in DOMAIN h : S!Close(Ev.got[q], h[q]), l, "hypothesis-" \o key, Ev.txt \o ": " \o Ev.gtext)
TStep == l <= Len(V!Trace) /\ (TPair \/ THyp) /\ l' = l + 1 /\ V!Done(l)
TraceSpec == l = 1 /\ [][TStep]_vars
=============================================================================
