SPECIFICATION Spec
CONSTANTS Configs = {1, 2}
 Contents = {1, 2}
 Orders = {0, 1}
 Containers = {"list", "tuple"}
 Val <- V2
INVARIANTS Functional TypeOK
PROPERTY EvaluationWritesNothing
CHECK_DEADLOCK FALSE
