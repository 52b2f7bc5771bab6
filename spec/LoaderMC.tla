------------------------------ MODULE LoaderMC ------------------------------
EXTENDS Loader
FullRecs == [e : {1}, c : {"A", "B"}, p : {0}, n : {1, 2}, m : {1, 2}, v : {1}]
QuickRecs == {r \in FullRecs : r.n = 2 \/ r.m = 1}
=============================================================================
