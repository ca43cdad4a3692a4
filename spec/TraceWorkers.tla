----------------------------- MODULE TraceWorkers -----------------------------
(* Recorded samplings and evaluations with any number of workers.  A record has     *)
(*   threads, cpus, n = <<ignition, PSR, flame cases>>, mode, fails (<<kind, case>>) *)
(*   events   <<"start" or "end", kind, case>> in the order they happened            *)
(*   outcome, metrics = <<kind, case, component>> ..., data = <<kind, case>> ...     *)
(* Starts and ends are replayed on the machine of Workers, one instance per kind.    *)
EXTENDS Workers, Judge
VARIABLES i, k, kind, ok

tvars == <<wvars, i, k, kind, ok>>
Rec == Trace[i]
MetricsPer == <<1, 3, 1>>
N(x) == Rec.n[x]
Limited == Limit(Rec.threads, Rec.cpus)
FailsOf(x) == {c \in 1..N(x) : \E y \in 1..Len(Rec.fails) : Rec.fails[y] = <<x, c>>}
EventsOf(x) == SelectSeq(Rec.events, LAMBDA e : e[2] = x)

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
\* a failing case of a candidate is recorded as component 0 (metric zero)
CaseMetrics(x, c) == [m \in 1..MetricsPer[x] |->
                        IF c \in FailsOf(x) THEN <<x, c, 0>> ELSE <<x, c, m>>]
ExpMetrics(x) == Flat([c \in 1..N(x) |-> CaseMetrics(x, c)])
ExpData(x) == [c \in 1..N(x) |-> <<x, c>>]
Zeroed(e, g) == IF e[3] = 0 THEN g = <<0, 0, 0>> ELSE g = e
SameMetrics(e, g) == Len(e) = Len(g) /\ \A x \in 1..Len(e) : Zeroed(e[x], g[x])

Raises == Rec.mode = "sample" /\ \E x \in 1..3 : FailsOf(x) # {}
\* kinds all of whose cases must have been simulated
Complete == IF Raises THEN {} ELSE {1, 2, 3}

Clauses ==
  <<<<"outcome", IF Raises THEN Rec.outcome = Rec.serial /\ Rec.outcome # "ok"
                 ELSE Rec.outcome = "ok">>,
    <<"schedule", ok>>,
    <<"metrics", Rec.outcome # "ok" \/
         SameMetrics(ExpMetrics(1) \o ExpMetrics(2) \o ExpMetrics(3), Rec.metrics)>>,
    <<"data", Rec.outcome # "ok" \/ Rec.mode # "sample" \/
         Rec.data = ExpData(1) \o ExpData(2) \o ExpData(3)>>>>

Begin(x) == StartWorkers(N(x), Limited, {})
Init == /\ \E n \in 1..Len(Trace) : i = n
        /\ k = 1 /\ kind = 1 /\ ok = TRUE /\ Begin(1)
Reset(x) == /\ wn' = N(x) /\ wlimit' = Limited /\ wfail' = {}
            /\ waiting' = 1..N(x) /\ running' = {} /\ done' = <<>> /\ merged' = <<>>
            /\ wresult' = "running"
Ev == EventsOf(kind)[k]
Next == /\ kind <= 3
        /\ IF k <= Len(EventsOf(kind)) /\ ok
           THEN \/ /\ Ev[1] = "start" /\ Take(Ev[3]) /\ k' = k + 1
                   /\ UNCHANGED <<i, kind, ok>>
                \/ /\ Ev[1] = "end" /\ Finish(Ev[3]) /\ k' = k + 1
                   /\ UNCHANGED <<i, kind, ok>>
                \/ /\ ~ENABLED (Ev[1] = "start" /\ Take(Ev[3]))
                   /\ ~ENABLED (Ev[1] = "end" /\ Finish(Ev[3]))
                   /\ ok' = FALSE /\ UNCHANGED <<wvars, i, k, kind>>
           ELSE LET good == ok /\ (kind \in Complete => waiting = {} /\ running = {}) IN
                IF kind = 3 \/ ~good
                THEN /\ kind' = 4 /\ ok' = good /\ UNCHANGED <<wvars, i, k>>
                     /\ PrintT("VERDICT|" \o ToString(i) \o "|" \o
                          ToJson(Failing(<<<<"schedule", good>>>> \o Clauses)))
                ELSE /\ kind' = kind + 1 /\ k' = 1 /\ UNCHANGED <<i, ok>> /\ Reset(kind + 1)
===============================================================================
