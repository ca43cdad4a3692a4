-------------------------------- MODULE Judge --------------------------------
(* Reading recorded runs and printing verdicts (read by harness/core.py).       *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Failing(_)
\* names of the clauses <<name, BOOLEAN>> that do not hold
Failing(clauses) ==
  IF clauses = <<>> THEN <<>>
  ELSE (IF clauses[1][2] THEN <<>> ELSE <<clauses[1][1]>>) \o Failing(Tail(clauses))

Verdict(i, clauses) ==
  PrintT("VERDICT|" \o ToString(i) \o "|" \o ToJson(Failing(clauses)))
Gen(x) == PrintT("GEN|" \o ToJson(x))
=============================================================================
