------------------------------ MODULE TraceStore -------------------------------
(* Recorded histories of runs of the real code sharing one working directory,      *)
(* judged by SampleStore.  Every step of a record is                               *)
(*   op, conf = <<ignition cases, PSR cases, flame cases, species>>, how           *)
(*   outcome  "ok", "crash" (ended from outside) or the name of an exception       *)
(*   sims     per kind the cases simulated, sorted                                 *)
(*   metrics  <<kind, run, case, component>> each returned value was made as       *)
(*   data     <<kind, run, case, first row, last row>> of the returned rows        *)
EXTENDS SampleStore, Judge

VARIABLES i, k, poss
vars == <<i, k, poss>>

Kinds == 1..3
RowsPer == <<20, 3, 20>>
MetricsPer == <<1, 3, 1>>
Steps == Trace[i].steps
St == Steps[k]
N(v, kind) == Steps[v].conf[kind]
Fits(kind, v) == N(v, kind) = N(k, kind)
SameShape(kind, v) == Fits(kind, v) /\ Steps[v].conf[4] = St.conf[4]

\* flat results expected if kind's values come from run src[kind]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
CaseMetrics(kind, v, c) == [m \in 1..MetricsPer[kind] |-> <<kind, v, c, m>>]
MetricsOf(kind, v) == Flat([c \in 1..N(k, kind) |-> CaseMetrics(kind, v, c)])
DataOf(kind, v) == [c \in 1..N(k, kind) |-> <<kind, v, c, 1, RowsPer[kind]>>]
All(kind) == [c \in 1..N(k, kind) |-> c]

Simulated(kind) == St.sims[kind] # <<>>
AllSimulated(kind) == N(k, kind) > 0 /\ St.sims[kind] = All(kind)
Used == {kind \in Kinds : N(k, kind) > 0}

\* the run the values of a kind came from, read off the first returned value
Seg(kind) == 1 + LET w(q) == IF q < kind THEN N(k, q) * MetricsPer[q] ELSE 0
                 IN w(1) + w(2) + w(3)
From(kind) == IF Len(St.metrics) >= Seg(kind) THEN St.metrics[Seg(kind)][2] ELSE -1

OkSource(kind) ==
  IF Simulated(kind)
  THEN /\ AllSimulated(kind) /\ From(kind) = k
       /\ CASE St.op = "sample" -> MayRun(poss[kind], LAMBDA v : SameShape(kind, v))
            [] St.how = "reuse" -> MayRunMetrics(poss[kind], LAMBDA v : Fits(kind, v))
            [] OTHER -> TRUE
  ELSE /\ From(kind) \in 1..(k - 1)
       /\ CASE St.op = "sample" ->
                 MayReuse(poss[kind], From(kind), LAMBDA v : SameShape(kind, v))
            [] St.how = "reuse" ->
                 MayReuseMetrics(poss[kind], From(kind), LAMBDA v : Fits(kind, v))
            [] OTHER -> FALSE
RightMetrics == St.metrics = MetricsOf(1, From(1)) \o MetricsOf(2, From(2))
                             \o MetricsOf(3, From(3))
RightData == St.op = "metrics" \/
             St.data = DataOf(1, From(1)) \o DataOf(2, From(2)) \o DataOf(3, From(3))

Clauses ==
  CASE St.op \in {"delete", "tamper"} -> <<>>
    [] St.outcome = "crash" -> <<<<"crash", St.how = "crash">>>>
    [] St.outcome = "ok" ->
         <<<<"source", \A kind \in Used : OkSource(kind)>>,
           <<"unasked", \A kind \in Kinds \ Used : ~Simulated(kind)>>,
           <<"metrics", RightMetrics>>, <<"data", RightData>>,
           <<"columns", St.op = "metrics" \/ Used = {} \/ St.cols = 2 + St.conf[4]>>>>
    [] OTHER -> \* an exception: only the scripted failure of a simulation
         <<<<"exception", St.how = "fail" /\ Simulated(St.fail)
              /\ MayRun(poss[St.fail], LAMBDA v : SameShape(St.fail, v))>>>>

NewPoss(kind) ==
  LET p == poss[kind] IN
  CASE St.op = "delete" ->
         IF St.kind # kind THEN p
         ELSE IF St.file = "data" THEN WithoutData(p) ELSE WithoutMetrics(p)
    [] St.op = "tamper" ->
         \* numbers of rows or metrics no configuration has
         IF St.kind # kind THEN p
         ELSE IF St.file = "data" THEN WithoutData(p) ELSE WithoutMetrics(p)
    [] N(k, kind) = 0 -> p
    [] St.outcome = "crash" -> IF AllSimulated(kind) THEN AfterCrash(p, k) ELSE p
    [] St.outcome # "ok" -> IF kind # St.fail /\ AllSimulated(kind)
                            THEN p \cup {[s |-> k, m |-> k]} ELSE p
    [] St.op = "sample" ->
         IF Simulated(kind) THEN {[s |-> k, m |-> k]}
         ELSE {q \in p : q.s = From(kind)}
    [] St.how = "reuse" ->
         IF Simulated(kind) THEN {q \in p : q.m = 0 \/ ~Fits(kind, q.m)}
         ELSE {q \in p : q.m = From(kind)}
    [] OTHER -> p

Init == /\ \E n \in 1..Len(Trace) : i = n
        /\ k = 1 /\ poss = [kind \in Kinds |-> {Nothing}]
Next == /\ k > 0
        /\ LET bad == Failing(Clauses) IN
           IF bad # <<>>
           THEN /\ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToJson(bad))
                /\ k' = 0 /\ UNCHANGED <<i, poss>>
           ELSE /\ poss' = [kind \in Kinds |-> NewPoss(kind)]
                /\ IF k = Len(Steps)
                   THEN PrintT("VERDICT|" \o ToString(i) \o "|[]") /\ k' = 0
                   ELSE k' = k + 1
                /\ UNCHANGED i
===============================================================================
