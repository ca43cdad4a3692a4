----------------------------- MODULE TraceReduce -----------------------------
(* Recorded reductions must be behaviours of Reduce.  A record has the scenario  *)
(* (rec.sc), the models simulated in order (rec.evals), and the outcome.         *)
(* Verdicts carry the progress made through the record ("@k"); the clauses of a  *)
(* verdict with the largest progress count (see harness/core.py).                *)
EXTENDS Reduce, Coeff, Judge

VARIABLES i, p, seen, mism

tvars == <<sc, lv, stage, d, j, first, acc, tried, cur, curErr, left, todo, errs, removed,
           i, p, seen, mism>>

Rec == Trace[i]
Ev(k) == SetOf(Trace[i].evals[k].set)
NEv == Len(Trace[i].evals)
Eps == 0

LevelsOf(s) ==
  IF s.graph = "none" THEN [x \in 1..s.n |-> LevelCap]
  ELSE TLCEval(Levels(s.graph, s.rxns,
         TLCEval([k \in 1..Len(s.states) |->
            [r \in 1..Len(s.rxns) |-> NetRate(s.rxns[r], s.states[k])]]),
         s.n, SetOf(s.targets)))

-----------------------------------------------------------------------------
(* Clauses about the record that need no matching with a behaviour *)
NoDup(q) == Cardinality(SetOf(q)) = Len(q)
RxKept(s, R) ==
  Cardinality({k \in 1..Len(s.rxns) : \A x \in 1..s.n : TakesPart(s.rxns[k], x) => x \in R})
\* a cut of the levels, with the protected species
IsCut(s, l, R) ==
  /\ Prot(s) \subseteq R
  /\ \A x \in R \ Prot(s), y \in Full(s) \ R : l[x] >= l[y]
CaseTags(s) == {100 + k : k \in 0..(s.ncases[1] - 1)} \cup {200 + k : k \in 0..(s.ncases[2] - 1)}
               \cup {300 + k : k \in 0..(s.ncases[3] - 1)}
AllCases(s, e) == NoDup(e.cases) /\ SetOf(e.cases) = CaseTags(s)
FloorOf(s) == IF s.floor = -1000000 THEN 500 ELSE s.floor
GoodFloors(s, e) == \A x \in 1..Len(e.floors) : e.floors[x] = FloorOf(s)
OkRun(r) == r.status = "ok"
\* the candidates whose files may remain: rejected ones, before the first accepted one,
\* and the result of the graph-based stage
LeftAllowed(r) ==
  {Len(r.evals[k].set) : k \in {k \in 1..Len(r.evals) :
       \A m \in 1..k : Exceeds(r.sc, Error(r.sc, SetOf(r.evals[m].set)))}}
  \cup (IF r.sc.sa # "none" /\ r.sc.graph # "none" THEN {Len(r.evals[k].set) : k \in 1..Len(r.evals)} ELSE {})
HalfErr(s, R) == 2 * Error(s, R)

\* attributes of the conditions, with defaults (kinds: 1 ignition, 2 PSR, 3 flame)
Default(x, dflt) == IF x = -1 THEN dflt ELSE x
WantedCond(c, kind) ==
  [kind |-> IF kind = 1 THEN c.kind ELSE -9, p |-> c.p,
   end |-> IF kind = 1 THEN Default(c.end, 0) ELSE 0,
   steps |-> IF kind = 1 THEN Default(c.steps, 10000) ELSE 0,
   width |-> IF kind = 3 THEN Default(c.width, 10000) ELSE 0,
   phi |-> c.phi, ctype |-> Default(c.ctype, 0),
   fuel |-> c.fuel, ox |-> c.ox, react |-> c.react, extra |-> 0]
CondIndex(s, t) == CASE t < 200 -> t - 100 + 1
                     [] t >= 200 /\ t < 300 -> t - 200 + 1 + s.ncases[1]
                     [] t >= 300 -> t - 300 + 1 + s.ncases[1] + s.ncases[2]
GoodConds(r) == \A k \in 1..Len(r.props) :
  r.props[k][1] \in CaseTags(r.sc) /\
  r.props[k][2] = WantedCond(r.sc.conds[CondIndex(r.sc, r.props[k][1])], r.props[k][1] \div 100)

\* processes at work (0: the main process itself)
Wanted(s) == IF s.threads = 0 THEN (IF s.cpus > 2 THEN s.cpus - 1 ELSE 1) ELSE s.threads
GoodWorkers(r) == LET w == Wanted(r.sc) IN
  \A k \in 1..Len(r.par) : IF w = 1 THEN r.par[k] = 0 ELSE r.par[k] >= 1 /\ r.par[k] <= w

\* a run that fails says so itself, instead of tripping over something
Stated == {"ok", "SystemExit", "RuntimeError", "ValueError", "CanteraError"}

StaticClauses(r, l) == LET s == r.sc IN
  << <<"protected", /\ \A k \in 1..Len(r.evals) : Prot(s) \subseteq SetOf(r.evals[k].set)
                    /\ \A k \in 1..Len(r.evals) : NoDup(r.evals[k].set)
                    /\ r.result # <<>> => Prot(s) \subseteq SetOf(r.result)
                    /\ r.midSet # <<>> => Prot(s) \subseteq SetOf(r.midSet)
                    /\ r.fileSet # <<>> => Prot(s) \subseteq SetOf(r.fileSet)>>,
     <<"cut", (s.graph # "none" /\ s.sa = "none" /\ ~r.baseFail) =>
                 /\ \A k \in 1..Len(r.evals) : IsCut(s, l, SetOf(r.evals[k].set))
                 /\ r.result # <<>> => IsCut(s, l, SetOf(r.result))>>,
     <<"midcut", (r.midSet # <<>>) => IsCut(s, l, SetOf(r.midSet))>>,
     <<"error", (OkRun(r) /\ r.result # <<>>) =>
          (LET R == SetOf(r.result) IN
           IF R = Full(s) THEN r.err2 \in {0, 2 * s.err0, HalfErr(s, R)} ELSE r.err2 = HalfErr(s, R))>>,
     <<"re2", (OkRun(r) /\ r.result # <<>> /\ SetOf(r.result) # Full(s)) => r.re2 = r.err2>>,
     <<"limit", (OkRun(r) /\ r.result # <<>>) =>
          (r.err2 <= s.limit2 \/ (s.graph = "none" /\ SetOf(r.result) = Full(s)))>>,
     <<"evaluated", (OkRun(r) /\ r.result # <<>>) =>
          (SetOf(r.result) = Full(s)
           \/ \E k \in 1..Len(r.evals) : SetOf(r.evals[k].set) = SetOf(r.result))>>,
     <<"explicit", r.status \in Stated /\ (r.status = "ok" => r.result # <<>>)>>,
     <<"limbo", (r.hasLimbo /\ r.midSet # <<>>) =>
          /\ NoDup(r.limbo)
          /\ IF s.upper = 0 THEN r.limbo = <<>>
             ELSE /\ SetOf(r.limbo) \subseteq
                        {x \in SetOf(r.midSet) : l[x] <= s.upper} \ Prot(s)
                  /\ {x \in SetOf(r.midSet) : l[x] < s.upper} \ Prot(s)
                        \subseteq SetOf(r.limbo)>>,
     <<"file", (OkRun(r) /\ r.result # <<>>) =>
          /\ r.fileSet = r.result /\ r.fileNrx = r.nrx /\ r.inPath
          /\ r.midSet # <<>> => r.midFile = r.midSet>>,
     <<"left", r.other = 0 /\ (~r.baseFail => SetOf(r.left) \subseteq LeftAllowed(r))>>,
     <<"h5", r.baseFail \/ r.h5 = 0>>,
     <<"fixed", r.fixedOk>>,
     <<"args", r.argsOk>>,
     <<"conds", GoodConds(r)>>,
     <<"workers", GoodWorkers(r)>>,
     <<"floors", /\ \A k \in 1..Len(r.evals) : GoodFloors(s, r.evals[k])
                 /\ \A k \in 1..Len(r.samples) : GoodFloors(s, r.samples[k])>>,
     <<"cases", /\ \A k \in 1..Len(r.evals) : AllCases(s, r.evals[k])
                /\ (~r.baseFail /\ ~r.reused) =>
                     \A k \in 1..Len(r.samples) : AllCases(s, r.samples[k])>>,
     <<"samples", /\ \A k \in 1..Len(r.samples) : SetOf(r.samples[k].set) = Full(s)
                  /\ Len(r.samples) <= 1
                  /\ (s.graph # "none" /\ ~r.reused) => Len(r.samples) = 1
                  /\ r.saved = ~r.baseFail \/ s.graph = "none">>,
     <<"reactions", /\ \A k \in 1..Len(r.evals) : r.evals[k].nrx = RxKept(s, SetOf(r.evals[k].set))
                    /\ r.result # <<>> => r.nrx = RxKept(s, SetOf(r.result))>>,
     <<"order", /\ \A k \in 1..Len(r.evals) : r.evals[k].set = SortedSeq(SetOf(r.evals[k].set))
                /\ r.result = SortedSeq(SetOf(r.result))>>,
     \* sensitivity analysis alone evaluates the starting model, and nothing else
     <<"basefail", r.baseFail =>
          /\ r.status \in Stated \ {"ok"} /\ ~r.saved
          /\ \A k \in 1..Len(r.evals) :
               s.graph = "none" /\ k = 1 /\ SetOf(r.evals[k].set) = Full(s)>>,
     <<"zeros", (\E k \in 1..Len(r.evals) : AnyFails(s, SetOf(r.evals[k].set))) =>
                   r.status \in {"ok", "SystemExit"}>> >>

-----------------------------------------------------------------------------
(* Matching a behaviour *)
Progress(k) == "@" \o ToString(k)
Marked(k, extra) ==
  PrintT("VERDICT|" \o ToString(i) \o "|" \o
         ToJson(<<Progress(k)>> \o Failing(extra) \o mism))

TraceInit ==
  \E k \in 1..Len(Trace) :
    /\ i = k /\ p = 1 /\ seen = {} /\ mism = <<>>
    /\ sc = Trace[k].sc /\ stage = "new"
    /\ lv = <<>> /\ d = 0 /\ j = 1 /\ first = TRUE /\ acc = {} /\ tried = {} /\ cur = {}
    /\ curErr = 0 /\ left = {} /\ todo = {} /\ errs = <<>> /\ removed = 0

\* a new record: the levels, and the clauses that need no behaviour
Begin ==
  /\ stage = "new"
  /\ LET l == LevelsOf(sc) IN
     /\ lv' = l /\ stage' = FirstStage(sc) /\ left' = FirstLeft(sc) /\ todo' = FirstLeft(sc)
     /\ d' = 0 /\ j' = 1 /\ first' = TRUE /\ removed' = 0
     /\ acc' = Full(sc) /\ tried' = Full(sc) /\ cur' = Full(sc) /\ curErr' = sc.err0
     /\ errs' = [x \in 1..sc.n |-> -1] /\ UNCHANGED sc
     /\ mism' = Failing(StaticClauses(Rec, l))
     /\ PrintT("VERDICT|" \o ToString(i) \o "|" \o
           ToJson(<<"@0">> \o (IF Rec.baseFail THEN <<>>
                               ELSE IF sc.graph = "none" THEN <<"sa">> ELSE <<"search">>)
                  \o mism'))
  /\ UNCHANGED <<i, p, seen>>

Consume(R) == p <= NEv /\ Ev(p) = R /\ p' = p + 1 /\ seen' = seen \cup {R}
Known(R) == (R \in seen \/ R = Full(sc)) /\ UNCHANGED <<p, seen>>
Same == UNCHANGED <<i, mism>>

\* a threshold; the candidate is simulated unless its error is known
TTry == stage = "search" /\ \E R \in Candidates(sc, lv, Threshold) :
          /\ Try(R)
          /\ \/ Consume(R)
             \/ Known(R) /\ ~(R = tried /\ p <= NEv /\ Ev(p) = R)
          /\ Same
\* the accepted candidate, or the starting model, may be simulated again
Again == /\ stage \in {"found", "over"} \/ (stage = "sa" /\ removed = 0)
         /\ p <= NEv
         /\ Ev(p) = (IF stage = "found" THEN acc ELSE cur)
         /\ p' = p + 1 /\ seen' = seen \cup {Ev(p)}
         /\ UNCHANGED rvars /\ Same
\* the record shows what was handed over; only what agrees is followed
THandOver ==
  /\ HandOver
  /\ Rec.midSet # <<>> => SetOf(Rec.midSet) = acc
  /\ UNCHANGED <<p, seen>> /\ Same
  /\ Marked(1, << <<IF sc.sa = "none" THEN "search" ELSE "sa", FALSE>> >>)
TEvaluate == \E x \in todo : Evaluate(x) /\ Consume(cur \ {x}) /\ Same
TRemove == \E x \in left :
             /\ Remove(x)
             /\ Consume(cur \ {x}) \/ Known(cur \ {x})
             /\ Same
TSaDone == SaDone /\ UNCHANGED <<p, seen>> /\ Same

EndClauses ==
  IF stage = "failed"
  THEN << <<"search", Rec.status \in Stated \ {"ok"} /\ Rec.result = <<>> >> >>
  ELSE << <<IF sc.sa = "none" THEN "search" ELSE "sa",
            Rec.status = "ok" /\ SetOf(Rec.result) = cur>>,
          <<"staterr", Rec.status = "ok" /\ Rec.err2 = 2 * curErr>> >>
End ==
  /\ Finished /\ p = NEv + 1 /\ i > 0
  /\ Marked(2, EndClauses)
  /\ stage' = "done" /\ UNCHANGED <<sc, lv, d, j, first, acc, tried, cur, curErr, left, todo,
                                    errs, removed, i, p, seen, mism>>

TraceNext == Begin \/ (~Rec.baseFail /\ (TTry \/ Again \/ THandOver \/ TEvaluate \/ TRemove \/ TSaDone \/ End))
=============================================================================
