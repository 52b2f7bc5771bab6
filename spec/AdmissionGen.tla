----------------------------- MODULE AdmissionGen -----------------------------
(* Enumerates constructor calls and samples at and around the boundary of the *)
(* admissible set; the recorder puts each to every statistic of the family.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes      \* sample sizes with a marked observation
VARIABLES done
Pos == {"neg", "negtiny", "negzero", "zero", "tiny", "below1", "one", "above1", "big"}
Loc == {"negbig", "neg", "negtiny", "zero", "tiny", "below1", "one", "above1", "big"}
Pairs == {q \in Pos \X Pos : q[1] \in {"above1", "zero"} \/ q[2] \in {"above1", "zero"} \/ q[1] = q[2]}
Ctor ==
  {[op |-> "ctor", d |-> d, p |-> [alpha |-> q[1], beta |-> q[2]]] : d \in {"beta", "gamma"}, q \in Pairs}
  \cup {[op |-> "ctor", d |-> "log_normal", p |-> [s |-> q[1], scale |-> q[2]]] : q \in Pairs}
  \cup {[op |-> "ctor", d |-> "student", p |-> [df |-> q[1], scale |-> q[2], loc |-> "neg"]] : q \in Pairs}
  \cup {[op |-> "ctor", d |-> "uniform", p |-> [a |-> a, b |-> b]] : a \in Loc, b \in Loc}
Opts == {[op |-> "opt", d |-> "gamma", bins |-> b] : b \in {-3, -1, 0, 1, 2, 3, 9}}
        \cup {[op |-> "opt", d |-> "uniform", type |-> t] : t \in {"A", "C", "K", "a", "c", "k", "B", "", "AC", "D"}}
Marks(d) == IF d \in {"uniform", "beta"} THEN {"farbelow", "below", "lo", "abovelo", "belowhi", "hi", "above", "farabove"} ELSE {"neg", "negtiny", "zero", "tiny"}
Marked == {[op |-> "sample", d |-> d, n |-> n, pos |-> i, mark |-> m] :
             d \in {"uniform", "beta", "gamma", "log_normal", "weibull"}, n \in Sizes, i \in {1, 2, 5, 8}, m \in {"farbelow", "below", "lo", "abovelo", "belowhi", "hi", "above", "farabove", "neg", "negtiny", "zero", "tiny"}}
Families == {"normal", "exponential", "weibull", "uniform", "beta", "gamma", "student", "log_normal"}
Plain == {[op |-> "sample", d |-> d, n |-> n, pos |-> 0, mark |-> m] : d \in Families, n \in 0..12, m \in {"none", "equal"}}
Cases == Ctor \cup Opts \cup {x \in Marked : x.mark \in Marks(x.d) /\ x.pos <= x.n} \cup {x \in Plain : x.mark = "none" \/ x.n \in {2, 5, 9}}
Emit == ~done /\ done' = TRUE /\ \A c \in Cases : PrintT("HIST|" \o ToJson(c))
Spec == done = FALSE /\ [][Emit]_done
=============================================================================
