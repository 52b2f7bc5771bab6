------------------------ MODULE MultipleTestingTrace ------------------------
(***************************************************************************)
(* Validates recorded adjustments and test() calls.  A recorded call names *)
(* an order ord that sorts its p-values; the walk below compares the k-th  *)
(* smallest with the specified value, carrying the running extremum.       *)
(***************************************************************************)
EXTENDS MultipleTesting, Verdict, SequencesExt

VARIABLES l, base    \* base: the last list of a permutation group with its adjusted values
vars == <<l, base>>
IsEvent(o) == l <= Len(Trace) /\ Trace[l].op = o
Step == l' = l + 1 /\ Done(l)

RelTol(n) == IF n > 10000 THEN RDec("1e-5") ELSE RDec("1e-11")   \* the code approximates long harmonic sums
Near(a, b, tol) == RAbs(a (-) b) \preceq ((tol (.) RAbs(b)) (+) RDec("1e-322"))

\* A walk carries <<running extremum, rank where the adjusted values first departed from the specified ones (0: nowhere)>>.
Walk(val(_, _), a, ranks, start, tol) ==
  FoldLeft(LAMBDA acc, k : LET r == TLCEval(val(acc[1], k)) IN
             <<r, IF acc[2] # 0 \/ Near(a[k], Min1(r), tol) THEN acc[2] ELSE k>>, <<start, 0>>, ranks)[2]
Ranks(n) == TLCEval([k \in 1..n |-> k])
Backwards(n) == TLCEval([k \in 1..n |-> n + 1 - k])

\* s and a: the sorted p-values and their adjusted values
DiffersOn(m, s, a, n, c) ==
  CASE m = "bonferroni" -> Walk(LAMBDA r, k : Bonf(n, s[k]), a, Ranks(n), Zero, RelTol(0))
    [] m \in {"sidak", "sidak_holm"} -> Walk(LAMBDA r, k : Sidak(n, s[k]), a, Ranks(n), Zero, RelTol(0))
    [] m = "holm" -> Walk(LAMBDA r, k : RMax2(r, RInt(n - k + 1) (.) s[k]), a, Ranks(n), Zero, RelTol(0))
    [] m = "hochberg" -> Walk(LAMBDA r, k : RMin2(r, RInt(n - k + 1) (.) s[k]), a, Backwards(n), One, RelTol(0))
    [] m = "by" -> Walk(LAMBDA r, k : RMin2(r, (c (.) s[k]) (/) RInt(k)), a, Backwards(n), One, RelTol(n))

Differs(m, s, a) == CHOOSE w \in {DiffersOn(m, s, a, Len(s), c) : c \in {IF m = "by" THEN RInt(Len(s)) (.) Harmonic(Len(s)) ELSE One}} : TRUE

Text(s) == ToString([i \in 1..(IF Len(s) > 8 THEN 8 ELSE Len(s)) |-> RStr(s[i])])
Says(ev) == ev.m \o " n=" \o ToString(Len(ev.p)) \o " p=" \o Text(ev.p) \o " "
Slack(x) == (x (.) RDec("1e-12")) (+) RDec("1e-322")

\* Singleton quantifiers make TLC evaluate the bound value once (a LET would be re-evaluated at every use).
Values(ev) ==
  \A P \in {TLCEval(ev.p)}, A \in {TLCEval(ev.adj)}, O \in {TLCEval(ev.ord)} :
  \A s \in {TLCEval([k \in 1..Len(P) |-> P[O[k]]])}, a \in {IF Len(A) = Len(P) THEN TLCEval([k \in 1..Len(A) |-> A[O[k]]]) ELSE <<>>} :
  LET n == Len(P)
      what == Says(ev) \o "gave " \o Text(A) IN
  /\ Clause(Len(A) = n, l, "length-" \o ev.m, Says(ev) \o "returned " \o ToString(Len(A)) \o " values")
  /\ Clause(\A k \in 1..(n - 1) : s[k] \preceq s[k + 1], l, "recorder-order", "")
  /\ Len(A) = n =>
     /\ LET d == Differs(ev.m, s, a) IN
        IF d = 0 THEN TRUE
        ELSE IF ev.m = "holm" /\ Differs("hochberg", s, a) = 0
        THEN Dev(l, "holm-stepup", what)
        ELSE Bad(l, "value-" \o ev.m, what \o " (first wrong: rank " \o ToString(d) \o ")")
     /\ Clause(\A k \in 1..n : (s[k] (-) Slack(s[k])) \preceq a[k] /\ a[k] \preceq One, l, "range-" \o ev.m, what)
     /\ Clause(\A k \in 1..(n - 1) : a[k] \preceq (a[k + 1] (+) Slack(a[k + 1])), l, "order-" \o ev.m, what)
     /\ Clause(\A k \in 1..(n - 1) : REq(s[k], s[k + 1]) => Near(a[k], a[k + 1], RDec("1e-12")), l, "ties-" \o ev.m, what)

TAdjust == IsEvent("adjust") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "adjust-raised-" \o ev.m, Says(ev) \o ev.err)
   /\ Clause(ev.unmod, l, "input-modified-" \o ev.m, Says(ev))
   /\ ev.ok => Values(ev)
   /\ base' = IF ev.ok /\ Len(ev.p) <= 2000 THEN <<[p |-> ev.p, adj |-> ev.adj]>> ELSE <<>>
   /\ Step

\* the same p-values in another order: perm[i] is where the i-th one was
TPerm == IsEvent("perm") /\ LET ev == Trace[l] IN
   /\ Clause(ev.ok, l, "adjust-raised-" \o ev.m, ev.err)
   /\ (ev.ok /\ base # <<>>) =>
        Clause(\A i \in 1..Len(ev.perm) : Near(ev.adj[i], base[1].adj[ev.perm[i]], RDec("1e-12")), l, "permutation-" \o ev.m,
               Says(base[1]) \o "adjusted " \o Text(base[1].adj) \o " permuted by " \o ToString(ev.perm) \o " " \o Text(ev.adj))
   /\ UNCHANGED base /\ Step

TTest == IsEvent("test") /\ LET ev == Trace[l] IN
   /\ IF Admissible(ev.p)
      THEN /\ Clause(ev.ok, l, "test-raised-" \o ev.m, Says(ev) \o ev.err)
           /\ Clause(ev.unmod, l, "input-modified-" \o ev.m, Says(ev))
           /\ ev.ok =>
              /\ Clause(Len(ev.rej) = Len(ev.p) /\ Len(ev.adj) = Len(ev.p), l, "test-length-" \o ev.m, Says(ev))
              /\ Clause(\A i \in 1..Len(ev.adj) : ev.rej[i] <=> ev.adj[i] \prec ev.thr, l, "test-decision-" \o ev.m,
                        Says(ev) \o "adjusted " \o Text(ev.adj) \o " threshold " \o RStr(ev.thr) \o " rejected " \o ToString(ev.rej))
              /\ Clause(base = <<>> \/ (Len(ev.adj) = Len(base[1].adj) /\ \A i \in 1..Len(ev.adj) : REq(ev.adj[i], base[1].adj[i])), l, "test-adjusted-" \o ev.m,
                        Says(ev) \o "test() adjusted " \o Text(ev.adj) \o " adjust() " \o Text(IF base = <<>> THEN <<>> ELSE base[1].adj))
      ELSE Clause(~ev.ok /\ ev.exc = "ValueError", l, "test-accepted-invalid-" \o ev.m, Says(ev) \o ev.err)
   /\ UNCHANGED base /\ Step

TraceInit == l = 1 /\ base = <<>>
TraceNext == TAdjust \/ TPerm \/ TTest
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
