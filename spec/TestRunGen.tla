----------------------------- MODULE TestRunGen -----------------------------
(***************************************************************************)
(* Sessions of Monte-Carlo resolutions: which resolver object (they differ *)
(* in their counts) is asked for which null law (family, parameter row),   *)
(* statistic code and sample size; invalid sizes included.  Consecutive    *)
(* questions often differ in one component only, the way a caching mistake *)
(* would need it.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Families, Rows, Resolvers, Codes, Sizes, Depth
VARIABLE h
Ask == [f : Families, r : Rows, k : Resolvers, c : Codes, n : Sizes]
Fresh(w) == [f |-> RandomElement(Families), r |-> RandomElement(Rows), k |-> RandomElement(Resolvers),
             c |-> RandomElement(Codes), n |-> RandomElement(Sizes \cup {-3}), tag |-> Len(w)]
Next1(w) == IF w = <<>> THEN Fresh(w)
            ELSE LET a == w[Len(w)] b == Fresh(w) x == RandomElement(1..7) IN
                 CASE x = 1 -> [a EXCEPT !.r = b.r] [] x = 2 -> [a EXCEPT !.k = b.k] [] x = 3 -> [a EXCEPT !.n = b.n]
                   [] x = 4 -> [a EXCEPT !.f = b.f] [] x = 5 -> a [] OTHER -> b
Init == h = <<>>
Next == h' = Append(h, Next1(h))
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
