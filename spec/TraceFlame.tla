----------------------------- MODULE TraceFlame ------------------------------
EXTENDS Flame, Judge
VARIABLES i, judged
P == INSTANCE Profile WITH temps <- <<>>, levels <- 0, pt <- 0, samples <- <<>>

Init == \E n \in 1..Len(Trace) : i = n /\ judged = FALSE /\ StartFlame(Trace[n].sc)
RowsOf(ts) == LET s == P!Expected(ts, 20) IN
              [n \in 1..20 |-> <<ts[s[n]], 1, s[n] - 1>>]
Clauses(rec) ==
  <<<<"outcome", IF FRaises THEN rec.outcome \notin {"ok", "timeout", "SystemExit"}
                 ELSE rec.outcome = "ok">>,
    <<"speed", rec.outcome # "ok" \/ rec.speed = fspeed>>,
    <<"width", rec.width = Width(fsc)>>,
    <<"rows", fsc.mode = "metric" \/ FRaises \/ rec.outcome # "ok"
                \/ rec.rows = RowsOf(fsc.T)>>>>
Next == \/ FNext /\ UNCHANGED <<i, judged>>
        \/ /\ FOver /\ ~judged /\ judged' = TRUE
           /\ Verdict(i, Clauses(Trace[i]))
           /\ UNCHANGED <<fvars, i>>
=============================================================================
