---------------------------- MODULE TraceIgnition ----------------------------
(* Recorded autoignition runs against Ignition (delay, errors) and Profile (rows). *)
EXTENDS Ignition, Judge
VARIABLES i, judged
P == INSTANCE Profile WITH temps <- <<>>, levels <- 0, pt <- 0, samples <- <<>>

Init == \E n \in 1..Len(Trace) : i = n /\ judged = FALSE /\ StartCase(Trace[n].sc)

DelayTicks == IF Result = 0 THEN 0 ELSE sc.script[Result].t
RowsOf(ts) == LET s == P!Expected(ts, 20) IN
              [n \in 1..20 |-> <<ts[s[n]], s[n] - 1, s[n] - 1>>]
Rose(ts) == ts[Len(ts)] >= ts[1]
Clauses(rec) ==
  <<<<"outcome", IF Raises THEN rec.outcome \notin {"ok", "timeout", "SystemExit"}
                 ELSE rec.outcome = "ok">>,
    <<"delay", Raises \/ rec.outcome # "ok" \/ rec.delay = DelayTicks>>,
    <<"rows", sc.mode = "metric" \/ Raises \/ rec.outcome # "ok" \/ ~Rose(Recorded)
                \/ rec.rows = RowsOf(Recorded)>>,
    <<"cleaned", Raises \/ rec.outcome # "ok" \/ rec.left = 0>>>>

Next == \/ INext /\ UNCHANGED <<i, judged>>
        \/ /\ Over /\ ~judged /\ judged' = TRUE
           /\ Verdict(i, Clauses(Trace[i]))
           /\ UNCHANGED <<ivars, i>>
=============================================================================
