------------------------------ MODULE Resolver ------------------------------
(***************************************************************************)
(* Resolving a limit distribution from the storage: the values stored for  *)
(* exactly the statistic's code, its hypothesis parameters and the sample  *)
(* size, whatever the number of simulations behind them.                   *)
(* Parameter lists are numbered; p and p + 10 are the same numbers written *)
(* as floats and as integers.                                              *)
(***************************************************************************)
EXTENDS Storage

SameParams(p, q) == p % 10 = q % 10
Stored(d, c, p, n) == {r \in d : r.c = c /\ SameParams(r.p, p) /\ r.n = n}
ResolveOk(d, c, p, n, res) ==
  IF Stored(d, c, p, n) = {} THEN res = <<>> ELSE \E r \in Stored(d, c, p, n) : res = <<r.v>>

\* what the library actually looks for: one simulation, parameters spelt alike
Literal(d, c, p, n) == {r \in d : r.c = c /\ r.p = p /\ r.n = n}
OnlyCount1(d, c, p, n) == Literal(d, c, p, n) # {} /\ \A r \in Literal(d, c, p, n) : r.m # 1
OtherSpelling(d, c, p, n) == Literal(d, c, p, n) = {} /\ Stored(d, c, p, n) # {}

Resolve(c, p, n) == \E res \in {<<>>} \cup {<<v>> : v \in Values} :
   ResolveOk(db, c, p, n, res) /\ ret' = <<"resolve", [c |-> c, p |-> p, n |-> n], res>> /\ UNCHANGED <<db, tx>>

RNext == \/ \E r \in Recs : Put(r)
         \/ \E q \in Queries : Delete(q)
         \/ \E c \in Codes, p \in Params, n \in Sizes : Resolve(c, p, n)
RSpec == Init /\ [][RNext]_vars

\* R02: exactly what was stored for it, nothing of another statistic, parameter or size
ResolveExact == [][ret'[1] = "resolve" =>
   LET q == ret'[2] hit == {r \in db : r.c = q.c /\ SameParams(r.p, q.p) /\ r.n = q.n} IN
   /\ db' = db
   /\ (ret'[3] = <<>>) <=> (hit = {})
   /\ ret'[3] # <<>> => \E r \in hit : r.v = ret'[3][1]]_vars
\* storing makes it resolvable at once and leaves every other question alone
PutResolvable == [][\A r \in Recs : (db' # db /\ db' = PutRec(db, r)) =>
   /\ \E s \in Stored(db', r.c, r.p, r.n) : s.v = r.v
   /\ \A c \in Codes, p \in Params, n \in Sizes :
        (c # r.c \/ ~SameParams(p, r.p) \/ n # r.n) => Stored(db', c, p, n) = Stored(db, c, p, n)]_vars
=============================================================================
