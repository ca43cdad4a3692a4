----------------------------- MODULE ErrorMetric -----------------------------
(* The error of a candidate's metrics (rec.test) relative to the starting model's *)
(* (rec.orig): the largest relative deviation, exactly 100 % if any is zero.      *)
(* rec.err is in units of 10^-4 %, rounded down; rec.exact100 tells if it is 100. *)
EXTENDS Integers, Sequences, Judge, FiniteSetsExt

EAbs(x) == IF x < 0 THEN -x ELSE x
AnyZero(rec) == \E k \in 1..Len(rec.test) : rec.test[k] = 0
Part(rec, k) == (1000000 * EAbs(rec.orig[k] - rec.test[k])) \div rec.orig[k]
Largest(rec) == Max({Part(rec, k) : k \in 1..Len(rec.test)})
Clauses(rec) ==
  <<<<"zero", AnyZero(rec) => rec.exact100>>,
    <<"largest", AnyZero(rec) \/ EAbs(rec.err - Largest(rec)) <= 1>>>>

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
=============================================================================
