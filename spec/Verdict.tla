------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Recorded traces and total verdicts.  A trace specification consumes     *)
(* every line; where a line is not a step the specification allows it      *)
(* prints the failing clause and goes on from the specified state, so the  *)
(* rest of the trace is checked too.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Bad(l, clause, detail) ==
  PrintT("BAD|" \o ToString(l) \o "|" \o clause \o "|" \o detail)

\* a deviation the specification knows by name (see known_findings.txt)
Dev(l, name, detail) ==
  PrintT("DEV|" \o ToString(l) \o "|" \o name \o "|" \o detail)

Clause(ok, l, clause, detail) == IF ok THEN TRUE ELSE Bad(l, clause, detail)

Done(l) == IF l = Len(Trace) THEN PrintT("DONE|" \o ToString(l)) ELSE TRUE

Has(r, f) == f \in DOMAIN r
=============================================================================
