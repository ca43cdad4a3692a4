-------------------------------- MODULE Reduce --------------------------------
(* A reduction: the threshold search of the graph-based methods, the hand-over  *)
(* of limbo species, and the sensitivity analysis, over an arbitrary landscape  *)
(* of errors.                                                                    *)
(*                                                                               *)
(* Thresholds and levels are in millionths; level[s] is the largest threshold at *)
(* which species s is kept (see Coeff).  Errors are in units of 100/1024 percent *)
(* (1024 is 100 percent) and the limit in half units, so all comparisons are     *)
(* exact, including equality.                                                    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  sc,      \* scenario: n, graph, sa, targets, safe, limit2, upper, err0, limbo, land
  lv,      \* levels of the species
  stage,   \* "search", "found", "sa", "over", "failed"
  d, j,    \* refinements of the threshold so far, multiple of the step
  first,   \* no candidate accepted yet
  acc,     \* last accepted candidate
  tried,   \* the candidate evaluated last in the search
  cur,     \* current model of the sensitivity analysis / final model
  curErr,  \* its error
  left,    \* limbo species not tried yet
  todo,    \* limbo species whose induced error is to be evaluated
  errs,    \* induced errors
  removed  \* number of species removed by the sensitivity analysis

rvars == <<sc, lv, stage, d, j, first, acc, tried, cur, curErr, left, todo, errs, removed>>

RAbs(x) == IF x < 0 THEN -x ELSE x
SetOf(q) == {q[x] : x \in 1..Len(q)}
RECURSIVE WeightSum(_, _)
WeightSum(f, S) == IF S = {} THEN 0
                ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + WeightSum(f, S \ {x})
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Full(s) == 1..s.n
Prot(s) == SetOf(s.targets) \cup SetOf(s.safe)

-----------------------------------------------------------------------------
(* The error of the model with species R: landscape s.land has, per metric, a    *)
(* weight per removed species, extra weights for removed pairs, and sets of       *)
(* species whose joint absence makes the simulation fail (metric zero).           *)
Deviation(m, R) ==
  WeightSum(m.w, {x \in 1..Len(m.w) : x \notin R})
  + WeightSum([x \in 1..Len(m.pairs) |-> m.pairs[x][3]],
           {x \in 1..Len(m.pairs) : m.pairs[x][1] \notin R /\ m.pairs[x][2] \notin R})
Fails(m, R) == \E x \in 1..Len(m.fails) : SetOf(m.fails[x]) \cap R = {}
AnyFails(s, R) == \E x \in 1..Len(s.land) : Fails(s.land[x], R)
Error(s, R) == IF AnyFails(s, R) THEN 1024
               ELSE MaxOf({RAbs(Deviation(s.land[x], R)) : x \in 1..Len(s.land)})
Exceeds(s, e) == 2 * e > s.limit2

-----------------------------------------------------------------------------
(* Threshold search *)
Scale(k) == CASE k = 0 -> 10000 [] k = 1 -> 1000 [] k = 2 -> 100 [] k = 3 -> 10 [] k = 4 -> 1
MaxRefine(s) == IF s.graph = "DRGEP" THEN 4 ELSE 2
Threshold == j * Scale(d)

Above(s, l, thr) == {x \in Full(s) : l[x] > thr}
Ties(s, l, thr) == {x \in Full(s) : l[x] = thr}
\* candidates at a threshold; a level equal to the threshold may go either way by
\* roundoff in the code, the exact comparison is decided at the level of the graph search
Candidates(s, l, thr) == {Above(s, l, thr) \cup X \cup Prot(s) : X \in SUBSET Ties(s, l, thr)}

\* where sensitivity analysis alone starts
AloneLimbo(s) == (IF s.limbo = <<>> THEN Full(s) ELSE SetOf(s.limbo)) \ Prot(s)
FirstStage(s) == IF s.graph = "none" THEN "sa" ELSE "search"
FirstLeft(s) == IF s.graph = "none" THEN AloneLimbo(s) ELSE {}

Start(s, l) ==
  /\ sc = s /\ lv = l
  /\ d = 0 /\ j = 1 /\ first = TRUE
  /\ acc = Full(s) /\ tried = Full(s)
  /\ errs = [x \in 1..s.n |-> -1] /\ removed = 0
  /\ cur = Full(s) /\ curErr = s.err0
  /\ stage = FirstStage(s) /\ left = FirstLeft(s) /\ todo = FirstLeft(s)

Try(R) ==
  /\ stage = "search"
  /\ R \in Candidates(sc, lv, Threshold)
  /\ tried' = R
  /\ LET bad == Exceeds(sc, Error(sc, R)) IN
     IF first /\ bad
     THEN /\ IF d = MaxRefine(sc) THEN stage' = "failed" /\ UNCHANGED d
             ELSE d' = d + 1 /\ UNCHANGED stage
          /\ j' = 1 /\ UNCHANGED <<first, acc>>
     ELSE IF bad THEN stage' = "found" /\ UNCHANGED <<d, j, first, acc>>
     ELSE /\ acc' = R /\ first' = FALSE /\ j' = j + 1
          /\ stage' = IF R = Prot(sc) THEN "found" ELSE "search"
          /\ UNCHANGED d
  /\ UNCHANGED <<sc, lv, cur, curErr, left, todo, errs, removed>>

LimboOf(s, l, R) == IF s.upper = 0 THEN {} ELSE {x \in R : l[x] < s.upper} \ Prot(s)

HandOver ==
  /\ stage = "found"
  /\ cur' = acc /\ curErr' = Error(sc, acc)
  /\ IF sc.sa = "none" THEN stage' = "over" /\ UNCHANGED <<left, todo>>
     ELSE LET lim == LimboOf(sc, lv, acc)
              all == IF lim = {} THEN acc \ Prot(sc) ELSE lim IN
          stage' = "sa" /\ left' = all /\ todo' = all
  /\ UNCHANGED <<sc, lv, d, j, first, acc, tried, errs, removed>>

-----------------------------------------------------------------------------
(* Sensitivity analysis *)
Evaluate(x) ==
  /\ stage = "sa" /\ x \in todo
  /\ todo' = todo \ {x}
  /\ errs' = [errs EXCEPT ![x] = Error(sc, cur \ {x})]
  /\ UNCHANGED <<sc, lv, stage, d, j, first, acc, tried, cur, curErr, left, removed>>

Distance(x) == RAbs(errs[x] - curErr)
Closest == {x \in left : \A y \in left : Distance(x) <= Distance(y)}
\* greedy: after a removal, stop as soon as all remaining removals exceed the limit
AllExceed == /\ sc.sa = "greedy" /\ removed > 0
             /\ \A x \in left : Exceeds(sc, errs[x])

Remove(x) ==
  /\ stage = "sa" /\ todo = {} /\ left # {} /\ ~AllExceed
  /\ x \in Closest
  /\ LET e == Error(sc, cur \ {x}) IN
     IF Exceeds(sc, e) THEN stage' = "over" /\ UNCHANGED <<cur, curErr, left, todo, removed>>
     ELSE /\ cur' = cur \ {x} /\ curErr' = e /\ left' = left \ {x}
          /\ todo' = IF sc.sa = "greedy" THEN left \ {x} ELSE {}
          /\ removed' = removed + 1 /\ UNCHANGED stage
  /\ UNCHANGED <<sc, lv, d, j, first, acc, tried, errs>>

SaDone ==
  /\ stage = "sa" /\ todo = {} /\ (left = {} \/ AllExceed)
  /\ stage' = "over"
  /\ UNCHANGED <<sc, lv, d, j, first, acc, tried, cur, curErr, left, todo, errs, removed>>

RNext == \/ stage = "search" /\ \E R \in Candidates(sc, lv, Threshold) : Try(R)
         \/ HandOver
         \/ \E x \in todo : Evaluate(x)
         \/ \E x \in left : Remove(x)
         \/ SaDone

Finished == stage \in {"over", "failed"}

-----------------------------------------------------------------------------
(* Properties *)
ProtectedKept == Prot(sc) \subseteq acc /\ Prot(sc) \subseteq cur /\ Prot(sc) \subseteq tried
ErrorIsReal ==
  (stage \in {"sa", "over"} /\ (removed > 0 \/ sc.graph # "none")) => curErr = Error(sc, cur)
WithinLimit == (stage = "over" /\ (sc.graph # "none" \/ removed > 0)) => ~Exceeds(sc, curErr)
AcceptedWithin == ~first => ~Exceeds(sc, Error(sc, acc))
LimboOnly == (stage = "sa" /\ sc.graph # "none" /\ sc.upper > 0 /\ LimboOf(sc, lv, acc) # {})
               => left \subseteq LimboOf(sc, lv, acc)
\* candidates only shrink as the threshold grows
Monotone == [][(stage = "search" /\ stage' = "search" /\ ~first) => acc' \subseteq acc]_rvars
Shrinks == [][cur' \subseteq cur]_rvars
=============================================================================
