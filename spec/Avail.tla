------------------------------- MODULE Avail -------------------------------
(***************************************************************************)
(* Opening storages in a hostile environment.  A target is a connection    *)
(* string class; a target that can work has a content; the environment may *)
(* break and repair the file behind it.  Opening safely gives a working    *)
(* storage or nothing and never raises; opening never changes content.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Good,     \* targets whose database can be opened
          Hopeless, \* targets that can never be opened
          Vals, MaxSteps
Targets == Good \cup Hopeless

VARIABLES content,  \* Good -> set of values stored (the keys are the values)
          broken,   \* Good targets whose file is currently unusable
          open,     \* targets with a storage object that was opened successfully
          ret, n
vars == <<content, broken, open, ret, n>>

Usable(t) == t \in Good /\ t \notin broken
Init == content = [t \in Good |-> {}] /\ broken = {} /\ open = {} /\ ret = "none" /\ n = 0
Tick == n < MaxSteps /\ n' = n + 1

\* returns a storage exactly when the target is usable; never raises
CreateSafe(t) == /\ Tick /\ UNCHANGED <<content, broken>>
                 /\ ret' = IF Usable(t) THEN "storage" ELSE "nothing"
                 /\ open' = IF Usable(t) THEN open \cup {t} ELSE open \ {t}
\* explicit initialisation: ConnectionError when unusable
InitCall(t) == /\ Tick /\ UNCHANGED <<content, broken>>
               /\ ret' = IF Usable(t) THEN "ok" ELSE "ConnectionError"
               /\ open' = IF Usable(t) THEN open \cup {t} ELSE open
Put(t, v) == /\ Tick /\ t \in open /\ Usable(t)
             /\ content' = [content EXCEPT ![t] = @ \cup {v}] /\ ret' = "ok" /\ UNCHANGED <<broken, open>>
Break(t) == Tick /\ Usable(t) /\ broken' = broken \cup {t} /\ ret' = "env" /\ UNCHANGED <<content, open>>
Repair(t) == Tick /\ t \in broken /\ broken' = broken \ {t} /\ ret' = "env" /\ UNCHANGED <<content, open>>

Next == \/ \E t \in Targets : CreateSafe(t) \/ InitCall(t)
        \/ \E t \in Good : Break(t) \/ Repair(t) \/ \E v \in Vals : Put(t, v)
Spec == Init /\ [][Next]_vars

NeverLosesContent == [][\A t \in Good : content[t] \subseteq content'[t]]_vars
OnlyPutAdds == [][content' # content => ret' = "ok" /\ open' = open]_vars
NeverHalfOpen == [][\A t \in open' \ open : Usable(t)]_vars
=============================================================================
