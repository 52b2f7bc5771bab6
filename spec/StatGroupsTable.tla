-------------------------- MODULE StatGroupsTable --------------------------
(* Prints which transformations the specification grants each statistic. *)
EXTENDS StatGroups, Json
VARIABLES done
Families == {"normal", "exponential", "weibull", "log_normal", "gamma", "uniform", "student", "beta"}
Universe == UNION {Composite(f) : f \in Families} \cup
  {"KS", "LILLIE", "CVM", "AD", "W", "MT", "MD", "LS", "HG1", "HG2", "QUESENBERRY_MILLER", "KUI", "WAT", "GRW", "MOR", "CHI2_PEARSON", "G_TEST", "CRESSIE_READ", "PPCC",
   "KUIPER", "WATSON", "ZHANG", "GREENWOOD", "BICKEL_ROSENBLATT", "STEIN_U", "CENSORED_STEIN_U", "NEYMAN", "SHERMAN", "ZHANG_ZA", "ZHANG_ZC", "CHI2", "MB", "SK", "ENT"}
Row(f, c) == [d |-> f, c |-> c, composite |-> (c \in Composite(f)), kinds |-> IF c \in Composite(f) THEN CompositeKinds(f) ELSE SimpleKinds(f, c)]
Emit == ~done /\ done' = TRUE /\ \A f \in Families : \A c \in Universe :
          \A r \in {TLCEval(Row(f, c))} : IF r.kinds = {} THEN TRUE ELSE PrintT("HIST|" \o ToJson(r))
Spec == done = FALSE /\ [][Emit]_done
=============================================================================
