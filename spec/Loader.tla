------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* The critical-value loader: a local cache in front of a remote storage.  *)
(* Both are contents of Storage (sets of records, one per key).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Recs0,   \* the records that may exist
          Codes0, Sizes0, Tols0, MaxCodes

VARIABLES local, remote, hasRemote, ret

\* the meaning of storage queries is Storage's; the state of that module is not used here
S == INSTANCE Storage WITH db <- local, tx <- <<>>, ret <- ret, Exps <- {}, Codes <- {}, Params <- {},
                           Sizes <- {}, Counts <- {}, Values <- {}, MaxBatch <- 0
vars == <<local, remote, hasRemote, ret>>

Q(c, n, t) == [c |-> c, n |-> n, t |-> t]
Match(d, q) == S!CvMatching(d, q)
BestOf(d, q) == S!Best(Match(d, q))

\* every local content a successful load may leave behind
LoadResults(loc, rem, has, q) ==
  IF ~has \/ Match(loc, q) # {} \/ Match(rem, q) = {} THEN {loc}
  ELSE {S!PutRec(loc, r) : r \in BestOf(rem, q)}
LoadAnswer(loc, rem, has, q) == has /\ (Match(loc, q) # {} \/ Match(rem, q) # {})

SetOf(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
Missing(loc, codes, n, t) == {c \in codes : Match(loc, Q(c, n, t)) = {}}
Fetchable(loc, rem, codes, n, t) == {c \in Missing(loc, codes, n, t) : Match(rem, Q(c, n, t)) # {}}

\* choices of one best remote record per fetchable code
RECURSIVE Choices(_, _, _, _)
Choices(cs, rem, n, t) ==
  IF cs = {} THEN {{}}
  ELSE LET c == CHOOSE x \in cs : TRUE
       IN {{r} \cup rest : r \in BestOf(rem, Q(c, n, t)), rest \in Choices(cs \ {c}, rem, n, t)}
\* Choices is finite but grows with ties; record sets of different codes never collide
PutSet(d, new) == LET keys == {S!Key(r) : r \in new} IN {r \in d : S!Key(r) \notin keys} \cup new
BulkResults(loc, rem, has, codes, n, t) ==
  IF ~has THEN {loc} ELSE {PutSet(loc, ch) : ch \in Choices(Fetchable(loc, rem, codes, n, t), rem, n, t)}
BulkCounts(loc, rem, has, codes, n, t) ==
  IF ~has THEN [req |-> Cardinality(codes), cached |-> 0, new |-> 0, missing |-> codes]
  ELSE [req |-> Cardinality(codes),
        cached |-> Cardinality(codes \ Missing(loc, codes, n, t)),
        new |-> Cardinality(Fetchable(loc, rem, codes, n, t)),
        missing |-> Missing(loc, codes, n, t) \ Fetchable(loc, rem, codes, n, t)]

Init == local = {} /\ remote = {} /\ hasRemote \in BOOLEAN /\ ret = [op |-> "none"]
PutLocal(r) == local' = S!PutRec(local, r) /\ UNCHANGED <<remote, hasRemote>> /\ ret' = [op |-> "none"]
PutRemote(r) == remote' = S!PutRec(remote, r) /\ UNCHANGED <<local, hasRemote>> /\ ret' = [op |-> "none"]
\* records may disappear from either side between two requests
DropLocal(q) == local' = S!DelRecs(local, q) /\ UNCHANGED <<remote, hasRemote>> /\ ret' = [op |-> "none"]
DropRemote(q) == remote' = S!DelRecs(remote, q) /\ UNCHANGED <<local, hasRemote>> /\ ret' = [op |-> "none"]
Exactly(r) == [c |-> r.c, p |-> r.p, n |-> r.n, m |-> r.m]
Load(q) == /\ local' \in LoadResults(local, remote, hasRemote, q)
           /\ ret' = [op |-> "load", q |-> q, ans |-> LoadAnswer(local, remote, hasRemote, q)]
           /\ UNCHANGED <<remote, hasRemote>>
\* the local store fails: nothing changes and the call raises
LoadFail(q) == /\ LoadResults(local, remote, hasRemote, q) # {local}
               /\ ret' = [op |-> "loadfail"] /\ UNCHANGED <<local, remote, hasRemote>>
Bulk(cs, n, t) == /\ local' \in BulkResults(local, remote, hasRemote, cs, n, t)
                  /\ ret' = [op |-> "bulk", cs |-> cs, n |-> n, t |-> t,
                             cnt |-> BulkCounts(local, remote, hasRemote, cs, n, t)]
                  /\ UNCHANGED <<remote, hasRemote>>
\* the local store fails: reported as nothing newly cached
BulkFail(cs, n, t) == /\ hasRemote /\ UNCHANGED <<local, remote, hasRemote>>
                      /\ ret' = [op |-> "bulkfail", cs |-> cs, n |-> n, t |-> t,
                                 cnt |-> [BulkCounts(local, remote, hasRemote, cs, n, t) EXCEPT !.new = 0]]
CodeSets == {cs \in SUBSET Codes0 : Cardinality(cs) <= MaxCodes}
Next == \/ \E r \in Recs0 : PutLocal(r) \/ PutRemote(r) \/ DropLocal(Exactly(r)) \/ DropRemote(Exactly(r))
        \/ \E c \in Codes0, n \in Sizes0, t \in Tols0 : Load(Q(c, n, t)) \/ LoadFail(Q(c, n, t))
        \/ \E cs \in CodeSets, n \in Sizes0, t \in Tols0 : Bulk(cs, n, t) \/ BulkFail(cs, n, t)
Spec == Init /\ [][Next]_vars
View == <<local, remote, hasRemote>>

\* ---- properties -----------------------------------------------------------
\* L01: the answer says whether a match is available locally afterwards
LoadTruthful == [][ret'.op = "load" /\ hasRemote => (ret'.ans <=> Match(local', ret'.q) # {})]_vars
\* L01: what is copied is the best the remote has, and nothing else changes
LoadCopiesBest == [][ret'.op = "load" =>
     /\ remote' = remote
     /\ \A r \in local' \ local : r \in BestOf(remote, ret'.q)
     /\ \A r \in local \ local' : \E s \in local' \ local : S!Key(s) = S!Key(r)
     /\ Cardinality(local' \ local) <= 1]_vars
LoadIdempotent == [][ret'.op = "load" => LoadResults(local', remote', hasRemote, ret'.q) = {local'}]_vars
\* L02: the counts add up and say what happened
BulkTruthful == [][ret'.op = "bulk" /\ hasRemote =>
     /\ ret'.cnt.cached + ret'.cnt.new + Cardinality(ret'.cnt.missing) = ret'.cnt.req
     /\ \A c \in ret'.cs : (Match(local', Q(c, ret'.n, ret'.t)) = {}) <=> c \in ret'.cnt.missing]_vars
FailureHarmless == [][ret'.op \in {"loadfail", "bulkfail"} => local' = local /\ remote' = remote]_vars
UniqueKeys == \A r, s \in local : S!Key(r) = S!Key(s) => r = s
=============================================================================
