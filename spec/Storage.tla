------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* The limit-distribution storage: a durable map from                      *)
(*   (experiment, criterion code, parameters, sample size, MC count)       *)
(* to a payload, shared by any number of storage objects.                  *)
(*                                                                         *)
(* A record is [e, c, p, n, m, v].  A batch is stored in several steps     *)
(* (begin, stage one record at a time, commit); only the commit is         *)
(* visible.  A crash or an error before the commit leaves no trace.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* ---- pure operators: the meaning of every call on a content db ----------
Key(r) == <<r.e, r.c, r.p, r.n, r.m>>
PutRec(d, r) == {x \in d : Key(x) # Key(r)} \cup {r}

\* a batch is stored record by record: the last record of a key wins
PutAll(d, batch) ==
  UNION {LET I == 1..Len(batch)
             last == IF Cardinality(keys) = Len(batch) THEN I
                     ELSE {i \in I : \A j \in I : j > i => Key(batch[j]) # Key(batch[i])}
         IN  {x \in d : Key(x) \notin keys} \cup {batch[i] : i \in last}
         : keys \in {{Key(batch[i]) : i \in 1..Len(batch)}}}

QMatch(q, r) == r.c = q.c /\ r.p = q.p /\ r.n = q.n /\ r.m = q.m
Matching(d, q) == {r \in d : QMatch(q, r)}
DelRecs(d, q) == {r \in d : ~QMatch(q, r)}

\* exact lookup: one of the matching records, or nothing when there is none
GetOk(d, q, res) ==
  IF Matching(d, q) = {} THEN res = <<>> ELSE \E r \in Matching(d, q) : res = <<r>>

InTol(n, q) == q.n - q.t <= n /\ n <= q.n + q.t
CvMatching(d, q) == {r \in d : r.c = q.c /\ InTol(r.n, q)}
Best(S) == {r \in S : \A s \in S : s.m <= r.m}

\* critical-value query: a matching record with the largest count
CvOk(d, q, res) ==
  \A M \in {CvMatching(d, q)} :
    IF M = {} THEN res = <<>> ELSE /\ Len(res) = 1
                                   /\ res[1] \in M
                                   /\ \A s \in M : s.m <= res[1].m

\* bulk query: exactly one best record per requested code with a match
BulkOk(d, codes, n, t, res) ==
  \A asked \in {codes} :
  \A near \in {{r \in d : InTol(r.n, [n |-> n, t |-> t]) /\ r.c \in asked}} :
  \A want \in {{r.c : r \in near}} :
    /\ Len(res) = Cardinality(want)
    /\ {res[i].c : i \in 1..Len(res)} = want
    /\ \A i \in 1..Len(res) : /\ res[i] \in near
                              /\ \A s \in near : s.c = res[i].c => s.m <= res[i].m

\* ---- the transition system -----------------------------------------------
CONSTANTS Exps, Codes, Params, Sizes, Counts, Values, MaxBatch

VARIABLES db,    \* committed content
          tx,    \* the running batch: <<>> or <<[todo, staged]>>
          ret    \* what the last call returned
vars == <<db, tx, ret>>
View == <<db, tx>>

Recs == [e : Exps, c : Codes, p : Params, n : Sizes, m : Counts, v : Values]
Queries == [c : Codes, p : Params, n : Sizes, m : Counts]
Tols == {0, 1}
CvQueries == [c : Codes, n : Sizes, t : Tols]
Batches == UNION {[1..k -> Recs] : k \in 0..MaxBatch}

Init == db = {} /\ tx = <<>> /\ ret = <<"none">>

Put(r) == tx = <<>> /\ db' = PutRec(db, r) /\ ret' = <<"ok">> /\ UNCHANGED tx
Delete(q) == tx = <<>> /\ db' = DelRecs(db, q) /\ ret' = <<"ok">> /\ UNCHANGED tx
\* lookups may come from any storage object, also while a batch is running
Answers(S) == {<<>>} \cup {<<r>> : r \in S}
Get(q) == \E res \in Answers(db) :
            GetOk(db, q, res) /\ ret' = <<"get", q, res>> /\ UNCHANGED <<db, tx>>
GetCv(q) == \E res \in Answers(db) :
            CvOk(db, q, res) /\ ret' = <<"cv", q, res>> /\ UNCHANGED <<db, tx>>
BulkBegin(b) == tx = <<>> /\ tx' = <<[todo |-> b, staged |-> db]>> /\ UNCHANGED <<db, ret>>
BulkStage == /\ tx # <<>> /\ tx[1].todo # <<>>
             /\ tx' = <<[todo |-> Tail(tx[1].todo), staged |-> PutRec(tx[1].staged, Head(tx[1].todo))]>>
             /\ UNCHANGED <<db, ret>>
BulkCommit == /\ tx # <<>> /\ tx[1].todo = <<>>
              /\ db' = tx[1].staged /\ tx' = <<>> /\ ret' = <<"ok">>
BulkFail == tx # <<>> /\ tx' = <<>> /\ ret' = <<"error">> /\ UNCHANGED db
\* the process dies, the database is opened again
Crash == tx' = <<>> /\ ret' = <<"none">> /\ UNCHANGED db
Reinit == tx = <<>> /\ ret' = <<"ok">> /\ UNCHANGED <<db, tx>>

Next == \/ \E r \in Recs : Put(r)
        \/ \E q \in Queries : Delete(q) \/ Get(q)
        \/ \E q \in CvQueries : GetCv(q)
        \/ \E b \in Batches : BulkBegin(b)
        \/ BulkStage \/ BulkCommit \/ BulkFail \/ Crash \/ Reinit

Spec == Init /\ [][Next]_vars

\* ---- properties -----------------------------------------------------------
TypeOK == db \subseteq Recs
\* S01: one record per key
UniqueKeys == Cardinality({Key(r) : r \in db}) = Cardinality(db)
\* S01: a lookup answers exactly when something matches, with what was stored
LookupExact == [][ret'[1] = "get" =>
     /\ db' = db
     /\ (ret'[3] = <<>>) <=> (\A r \in db : ~QMatch(ret'[2], r))
     /\ ret'[3] # <<>> => ret'[3][1] \in db /\ QMatch(ret'[2], ret'[3][1])]_vars
\* S02: nothing better is stored
CvIsMaximal == [][ret'[1] = "cv" =>
     /\ db' = db
     /\ \A r \in db : (r.c = ret'[2].c /\ InTol(r.n, ret'[2])) => ret'[3] # <<>> /\ r.m <= ret'[3][1].m]_vars
\* S01: a store replaces only its key, a delete removes only its query,
\* S03: otherwise the content changes only by a whole batch
OnlyWritersWrite == [][db' # db =>
     \/ \E r \in Recs : db' = PutRec(db, r)
     \/ \E q \in Queries : db' = DelRecs(db, q)
     \/ tx # <<>> /\ tx[1].todo = <<>> /\ db' = tx[1].staged]_vars
\* S03: while a batch runs, what readers see does not move until the commit
BatchInvisible == [][(tx # <<>> /\ tx' # <<>>) => db' = db]_vars
\* S03: after a failure or crash the content is as before the batch
FailureHarmless == [][(tx # <<>> /\ ret'[1] \in {"error", "none"} /\ tx' = <<>> /\ ret' # ret) => db' = db]_vars
=============================================================================
