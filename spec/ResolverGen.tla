---------------------------- MODULE ResolverGen ----------------------------
EXTENDS Resolver, TLC, Json
CONSTANT Depth
VARIABLE h
AnyRec(w) == RandomElement(Recs)
NearRec(w) == IF db = {} \/ RandomElement(1..4) = 1 THEN AnyRec(h)
           ELSE LET a == RandomElement(db) b == AnyRec(h) f == RandomElement(1..6)
                IN  CASE f = 1 -> [a EXCEPT !.e = b.e, !.v = b.v]
                      [] f = 2 -> [a EXCEPT !.m = b.m, !.v = b.v]
                      [] f = 3 -> [a EXCEPT !.n = b.n, !.v = b.v]
                      [] f = 4 -> [a EXCEPT !.p = b.p, !.v = b.v]
                      [] f = 5 -> [a EXCEPT !.c = b.c, !.v = b.v]
                      [] OTHER -> [a EXCEPT !.v = b.v]
Q(r) == [c |-> r.c, p |-> r.p, n |-> r.n, m |-> r.m]
Log(x) == h' = Append(h, x)
GPut == \E r \in {NearRec(h)} : Put(r) /\ Log([op |-> "put", rec |-> r])
GDel == \E r \in {NearRec(h)} : Delete(Q(r)) /\ Log([op |-> "del", q |-> Q(r)])
GRes == \E r \in {NearRec(h)} : UNCHANGED vars /\ Log([op |-> "resolve", c |-> r.c, p |-> r.p, n |-> r.n])
GInit == Init /\ h = <<>>
GNext == GPut \/ GDel \/ GRes
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
