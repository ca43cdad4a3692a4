------------------------------ MODULE SampleStore ------------------------------
(* Saved samples of one kind of simulation, and what may be reused.               *)
(*                                                                               *)
(* What is saved is abstracted to a pair [s, m] of run numbers (0: nothing): s is  *)
(* the run whose states and metrics both could be reused, m the run whose metrics  *)
(* could be reused alone (by sensitivity analysis).  A run that was ended while    *)
(* saving leaves one of several pairs, so the knowledge about what is saved is a   *)
(* set of pairs, narrowed down by what later runs reuse.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [s |-> 0, m |-> 0]
\* after run j was ended while it may have been saving
AfterCrash(poss, j) ==
  UNION {{p, [s |-> 0, m |-> p.m], Nothing, [s |-> 0, m |-> j], [s |-> j, m |-> j]} :
           p \in poss}
WithoutData(poss) == {[s |-> 0, m |-> p.m] : p \in poss}
WithoutMetrics(poss) == {Nothing : p \in poss}

(* Matches(v): the saved samples of run v fit the present number of cases and species; *)
(* CountFits(v): its metrics fit the number of cases.                                  *)
MayReuse(poss, v, Matches(_)) == v # 0 /\ Matches(v) /\ \E p \in poss : p.s = v
MayRun(poss, Matches(_)) == \E p \in poss : p.s = 0 \/ ~Matches(p.s)
MayReuseMetrics(poss, v, CountFits(_)) == v # 0 /\ CountFits(v) /\ \E p \in poss : p.m = v
MayRunMetrics(poss, CountFits(_)) == \E p \in poss : p.m = 0 \/ ~CountFits(p.m)
===============================================================================
