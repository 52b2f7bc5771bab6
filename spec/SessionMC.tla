------------------------------ MODULE SessionMC ------------------------------
EXTENDS Session
V2(c, x) == <<c, x>>
MaxObjs == 2
MaxHeap == 2
Next == \/ \E c \in Configs : Len(objs) < MaxObjs /\ Make(c)
        \/ \E x \in Contents, o \in Orders, k \in Containers : Len(heap) < MaxHeap /\ Sample(x, o, k)
        \/ \E i \in 1..Len(heap), x \in Contents, o \in Orders : heap[i].container # "tuple" /\ Overwrite(i, x, o)
        \/ \E o \in 1..Len(objs), i \in 1..Len(heap) : Evaluate(o, i)
Spec == Init /\ [][Next]_svars
\* what was seen stays true: the memo is a function of configuration and content
Functional == \A m, w \in memo : (m[1] = w[1] /\ m[2] = w[2]) => m[3] = w[3]
\* only the program changes its samples
EvaluationWritesNothing == [][(\E o \in 1..Len(objs), i \in 1..Len(heap) : Evaluate(o, i)) => UNCHANGED <<objs, heap>>]_svars
TypeOK == \A i \in 1..Len(heap) : heap[i].content \in Contents
=============================================================================
