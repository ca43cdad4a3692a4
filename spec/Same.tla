--------------------------------- MODULE Same ---------------------------------
(* Outcomes of runs that must agree: rec.runs is a sequence of observations.      *)
EXTENDS Integers, Sequences, Judge
Field(rec, f) == \A k \in 2..Len(rec.runs) : rec.runs[k][f] = rec.runs[1][f]
Clauses(rec) == [n \in 1..Len(rec.fields) |-> <<rec.fields[n], Field(rec, rec.fields[n])>>]
VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
=============================================================================
