------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The stored payload: a header (version, element type, length) followed   *)
(* by the elements.  Decoding either gives back what was encoded, rounded  *)
(* to the element type, or refuses; damage to the header, or a body that   *)
(* is too short, must be refused.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Elems, MaxLen     \* abstract elements and sequence lengths
VARIABLES val, wide, blob, got, dmg
vars == <<val, wide, blob, got, dmg>>

Version == 1
\* abstract rounding: elements come in pairs 2k, 2k+1 that single precision merges
Round(x, w) == IF w THEN x ELSE (x \div 2) * 2
Encode(v, w) == [hdr |-> 6, ver |-> Version, wide |-> w, len |-> Len(v),
                 body |-> [i \in 1..Len(v) |-> Round(v[i], w)]]
Refused == <<"refused">>
Decode(b) == IF b.hdr < 6 \/ b.ver # Version \/ Len(b.body) < b.len THEN Refused
             ELSE <<"ok", [i \in 1..b.len |-> b.body[i]]>>

Seqs == UNION {[1..k -> Elems] : k \in 0..MaxLen}
Init == /\ val \in Seqs /\ wide \in BOOLEAN
        /\ blob = Encode(val, wide) /\ got = <<"none">> /\ dmg = "no"
Read == got' = Decode(blob) /\ UNCHANGED <<val, wide, blob, dmg>>
CutHeader == dmg = "no" /\ \E k \in 0..5 : blob' = [blob EXCEPT !.hdr = k, !.body = <<>>] /\ dmg' = "header"
             /\ UNCHANGED <<val, wide>> /\ got' = <<"none">>
BadVersion == dmg = "no" /\ \E k \in {0, 2, 255} : blob' = [blob EXCEPT !.ver = k] /\ dmg' = "version"
             /\ UNCHANGED <<val, wide>> /\ got' = <<"none">>
CutBody == dmg = "no" /\ \E k \in 0..(Len(val) - 1) : blob' = [blob EXCEPT !.body = SubSeq(@, 1, k)] /\ dmg' = "body"
             /\ UNCHANGED <<val, wide>> /\ got' = <<"none">>
Next == Read \/ CutHeader \/ BadVersion \/ CutBody
Spec == Init /\ [][Next]_vars

RoundTrip == got[1] = "ok" => /\ dmg = "no" /\ Len(got[2]) = Len(val)
                              /\ \A i \in 1..Len(val) : got[2][i] = Round(val[i], wide)
DamageRefused == got[1] # "none" /\ dmg # "no" => got = Refused
=============================================================================
