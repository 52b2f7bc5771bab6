------------------------------- MODULE GraphGen -------------------------------
(***************************************************************************)
(* Every sample of eight points of a grid, spanning ten steps, for which   *)
(* the joining distance of its family is exactly a whole number of steps:  *)
(* pairs at exactly that distance are not joined.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N
VARIABLES x, done
vars == <<x, done>>
RECURSIVE SumTo(_, _, _)
SumTo(q, k, power) == IF k = 0 THEN 0 ELSE (IF power = 1 THEN q[k] ELSE q[k] * q[k]) + SumTo(q, k - 1, power)
Total(q) == SumTo(q, N, 1)
Squares(q) == SumTo(q, N, 2)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128}
\* normal: r = (10 c / 10) / (V c^2) = m c, for samples c x, V the variance of x, so V m = 1 / c^2
NormalDens(q) == {den \in Pow2 : LET v64 == N * Squares(q) - Total(q) * Total(q) IN
                 \E m \in 1..6 : v64 * m = N * N * den * den}
\* exponential, samples c (x + o): r = c / (M c) = m c, M the mean of x + o
ExpPairs(q) == {e \in {1, 2, 5} \X Pow2 : \E m \in 1..6 : (Total(q) + N * e[1]) * m = N * e[2]}
Init == x = <<0>> /\ done = FALSE
Grow == /\ Len(x) < N
        /\ \E v \in (IF Len(x) = N - 1 THEN {10} ELSE x[Len(x)]..10) : x' = Append(x, v)
        /\ UNCHANGED done
Emit == /\ Len(x) = N /\ ~done /\ done' = TRUE /\ UNCHANGED x
        /\ \A den \in NormalDens(x) : PrintT("HIST|" \o ToJson([d |-> "normal", x |-> x, den |-> den]))
        /\ \A q \in ExpPairs(x) : PrintT("HIST|" \o ToJson([d |-> "exponential", x |-> [i \in 1..N |-> x[i] + q[1]], den |-> q[2]]))
Spec == Init /\ [][Grow \/ Emit]_vars
=============================================================================
