------------------------------- MODULE MCReduce -------------------------------
(* Species 1 is the target.  All levels, weights, limits, upper thresholds,      *)
(* stages and protected sets of a small domain.                                  *)
EXTENDS Reduce, TLC
CONSTANTS N, LevelSet, Weights, Limits, Uppers, Graphs, Sas

Scenarios ==
  {[n |-> N, graph |-> g, sa |-> a, targets |-> <<1>>, safe |-> sf, limit2 |-> lim,
    upper |-> up, err0 |-> 0, limbo |-> <<>>,
    land |-> <<[w |-> w, pairs |-> pr, fails |-> fl]>>] :
      g \in Graphs, a \in Sas, sf \in {<<>>, <<2>>}, lim \in Limits, up \in Uppers,
      w \in {w \in [1..N -> Weights] : w[1] = 0}, pr \in {<<>>, <<<<2, 3, -2>>>>},
      fl \in {<<>>, <<<<N>>>>}}
Init == \E s \in Scenarios, l \in [1..N -> LevelSet] :
          /\ l[1] = MaxOf(LevelSet)
          /\ s.graph = "none" => /\ \A x \in 1..N : l[x] = l[1]
                                 /\ s.sa # "none" /\ s.upper = 0
          /\ s.sa = "none" => s.upper = 0
          /\ Start(s, l)
Spec == Init /\ [][RNext]_rvars /\ WF_rvars(RNext)
Terminates == <>Finished
NoAlarm == TRUE
=============================================================================
