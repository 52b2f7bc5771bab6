----------------------------- MODULE LoaderGen -----------------------------
(* Random behaviours of Loader for replay into the real loader. *)
EXTENDS Loader, TLC, Json
CONSTANTS Depth
VARIABLE h
GenRecs == [e : {1, 2}, c : Codes0, p : {0, 1}, n : Sizes0, m : {1, 10, 100}, v : 1..6]
Pick(X, w) == RandomElement(IF w = <<>> THEN X ELSE X \ {})
Log(x) == h' = Append(h, x)
RandCodes(w) == Pick({cs \in SUBSET Codes0 : Cardinality(cs) <= MaxCodes}, w)
RECURSIVE ToSeq(_)
ToSeq(X) == IF X = {} THEN <<>> ELSE LET x == RandomElement(X) IN <<x>> \o ToSeq(X \ {x})
\* what the loads of the walk leave behind (ties broken at random) only guides the choice of later calls
Loaded(c, n, t, fail) == IF fail THEN local ELSE RandomElement(LoadResults(local, remote, hasRemote, Q(c, n, t)))
Loads == SelectSeq(h, LAMBDA x : x.op = "load")
GLoad(c, n, t, fail) == /\ local' = Loaded(c, n, t, fail) /\ UNCHANGED <<remote, hasRemote, ret>>
                        /\ Log([op |-> "load", c |-> c, n |-> n, t |-> t, fail |-> fail])
Stored(d, w) == IF d = {} \/ RandomElement(1..5) = 1 THEN Pick(GenRecs, w) ELSE Pick(d, w)
GInit == Init /\ h = <<[op |-> "start", has |-> hasRemote]>>
GNext ==
  \/ \E r \in {Pick(GenRecs, h)} : PutLocal(r) /\ Log([op |-> "putlocal", rec |-> r])
  \/ \E r \in {Pick(GenRecs, h)} : PutRemote(r) /\ Log([op |-> "putremote", rec |-> r])
  \/ \E r \in {Pick(GenRecs, h)} : PutRemote(r) /\ Log([op |-> "putremote", rec |-> r])
  \/ \E c \in {Pick(Codes0, h)}, n \in {Pick(Sizes0, h)}, t \in {Pick(Tols0, h)} :
        GLoad(c, n, t, FALSE)
  \/ \E c \in {Pick(Codes0, h)}, n \in {Pick(Sizes0, h)}, t \in {Pick(Tols0, h)} :
        GLoad(c, n, t, Pick({TRUE, FALSE}, h))
  \* a request is repeated, something stored disappears
  \/ Loads # <<>> /\ \E x \in {Loads[RandomElement({Len(Loads), Len(Loads), 1})]} : GLoad(x.c, x.n, x.t, FALSE)
  \/ \E r \in {Stored(local, h)} : DropLocal(Exactly(r)) /\ Log([op |-> "droplocal", q |-> Exactly(r)])
  \/ \E r \in {Stored(remote, h)} : DropRemote(Exactly(r)) /\ Log([op |-> "dropremote", q |-> Exactly(r)])
  \/ \E cs \in {RandCodes(h)}, n \in {Pick(Sizes0, h)}, t \in {Pick(Tols0, h)} :
        UNCHANGED vars /\ Log([op |-> "bulk", cs |-> ToSeq(cs), n |-> n, t |-> t, fail |-> FALSE])
  \/ \E cs \in {RandCodes(h)}, n \in {Pick(Sizes0, h)}, t \in {Pick(Tols0, h)} :
        UNCHANGED vars /\ Log([op |-> "bulk", cs |-> ToSeq(cs), n |-> n, t |-> t, fail |-> Pick({TRUE, FALSE}, h)])
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == Len(h) = Depth => PrintT("HIST|" \o ToJson(h))
=============================================================================
