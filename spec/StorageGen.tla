---------------------------- MODULE StorageGen ----------------------------
(***************************************************************************)
(* Generates behaviours of Storage for replay into the real code: random   *)
(* walks (tlc -simulate) over the specification's own calls, biased        *)
(* towards keys that collide with or narrowly miss stored ones.  The walk  *)
(* is written out as JSON; storage objects are numbered 1..2.              *)
(***************************************************************************)
EXTENDS Storage, TLC, Json, IOUtils

CONSTANT Depth
VARIABLE h

\* (the argument keeps TLC from evaluating a random choice only once)
AnyObj(w) == RandomElement(IF w = <<>> THEN {1, 2} ELSE {2, 1})
AnyRec(w) == RandomElement(Recs)
\* a record equal to a stored one up to some of its fields
NearRec(w) == IF db = {} \/ RandomElement(1..4) = 1 THEN AnyRec(h)
           ELSE LET a == RandomElement(db) b == AnyRec(h) f == RandomElement(1..6)
                IN  CASE f = 1 -> [a EXCEPT !.e = b.e, !.v = b.v]
                      [] f = 2 -> [a EXCEPT !.m = b.m, !.v = b.v]
                      [] f = 3 -> [a EXCEPT !.n = b.n, !.v = b.v]
                      [] f = 4 -> [a EXCEPT !.p = b.p, !.v = b.v]
                      [] f = 5 -> [a EXCEPT !.c = b.c, !.v = b.v]
                      [] OTHER -> [a EXCEPT !.v = b.v]
Q(r) == [c |-> r.c, p |-> r.p, n |-> r.n, m |-> r.m]
RandTol(w) == RandomElement({0, 0, 1, 2, 20})
RandBatch(w) == [i \in 1..RandomElement(0..MaxBatch) |-> NearRec(h)]
RandWhy(w) == RandomElement({"payload", "params"})
RandCodes(w) == [i \in 1..RandomElement(0..4) |-> RandomElement(Codes)]

Log(x) == h' = Append(h, x)
GPut == \E r \in {NearRec(h)}, s \in {AnyObj(h)} : Put(r) /\ Log([op |-> "put", s |-> s, rec |-> r])
GDel == \E r \in {NearRec(h)}, s \in {AnyObj(h)} :
           Delete(Q(r)) /\ Log([op |-> "del", s |-> s, q |-> Q(r)])
GGet == \E r \in {NearRec(h)}, s \in {AnyObj(h)} :
           UNCHANGED vars /\ Log([op |-> "get", s |-> s, q |-> Q(r)])
GCv == \E r \in {NearRec(h)}, s \in {AnyObj(h)}, t \in {RandTol(h)} :
           UNCHANGED vars /\ Log([op |-> "cv", s |-> s, c |-> r.c, n |-> r.n, t |-> t])
GBulkGet == \E r \in {NearRec(h)}, s \in {AnyObj(h)}, t \in {RandTol(h)}, cs \in {RandCodes(h)} :
           UNCHANGED vars /\ Log([op |-> "bulkget", s |-> s, cs |-> cs, n |-> r.n, t |-> t])
GBulk == \E b \in {RandBatch(h)}, s \in {AnyObj(h)} :
           db' = PutAll(db, b) /\ UNCHANGED <<tx, ret>> /\ Log([op |-> "bulk", s |-> s, batch |-> b, bad |-> 0])
\* many simulations of one code
Crowd(c, k) == [i \in 1..k |-> [AnyRec(i) EXCEPT !.c = c]]
GCrowd == \E r \in {AnyRec(h)}, s \in {AnyObj(h)}, k \in {RandomElement({6, 12, 40})} : \E b \in {TLCEval(Crowd(r.c, k))} :
           db' = PutAll(db, b) /\ UNCHANGED <<tx, ret>> /\ Log([op |-> "bulk", s |-> s, batch |-> b, bad |-> 0])
\* a batch with one record the database must reject
GBulkBad == \E b \in {RandBatch(h)}, s \in {AnyObj(h)} :
           /\ b # <<>>
           /\ \E k \in {RandomElement(1..Len(b))}, w \in {RandWhy(h)} :
                UNCHANGED vars /\ Log([op |-> "bulk", s |-> s, batch |-> b, bad |-> k, why |-> w])
GReinit == \E s \in {AnyObj(h)} : UNCHANGED vars /\ Log([op |-> "init", s |-> s])
GReopen == \E s \in {AnyObj(h)} : UNCHANGED vars /\ Log([op |-> "reopen", s |-> s])

GInit == Init /\ h = <<>>
GNext == GPut \/ GDel \/ GGet \/ GCv \/ GBulkGet \/ GBulk \/ GCrowd \/ GBulkBad \/ GReinit \/ GReopen
GSpec == GInit /\ [][GNext]_<<vars, h>>

Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
