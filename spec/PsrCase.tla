------------------------------- MODULE PsrCase -------------------------------
(* A PSR case whose curve is traced (rec.sc.fail = "") or cannot be traced: the  *)
(* starting model raises, a candidate gets three zero metrics.                   *)
EXTENDS Integers, Sequences, Judge

Clauses(rec) == LET failed == rec.sc.fail # "" IN
  <<<<"outcome", IF failed /\ rec.sc.mode = "sample"
                 THEN rec.outcome \notin {"ok", "timeout", "SystemExit"}
                 ELSE rec.outcome = "ok">>,
    <<"metrics", rec.outcome = "ok" =>
        IF failed THEN rec.metrics = <<0, 0, 0>>
        ELSE rec.metrics = <<rec.sc.points[1][1], rec.sc.points[2][2], rec.sc.points[3][2]>>>>,
    <<"states", (rec.outcome = "ok" /\ rec.sc.mode = "sample") =>
        rec.rows = [k \in 1..3 |-> <<rec.sc.points[k][2], 1, k>>]>> >>

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
=============================================================================
