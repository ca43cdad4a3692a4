------------------------------- MODULE Workers ---------------------------------
(* Cases of one kind distributed over worker processes.                            *)
(*                                                                                *)
(* Any idle worker may take any chunk of the cases still waiting; cases finish in   *)
(* any order.  What is returned is put together by the number of the case.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES wn, wlimit, waiting, running, done, merged, wfail, wresult
wvars == <<wn, wlimit, waiting, running, done, merged, wfail, wresult>>

\* the number of processes used for the option num_threads on a machine of cpus cores
Limit(threads, cpus) ==
  IF threads # 0 THEN threads ELSE IF cpus > 2 THEN cpus - 1 ELSE 1

StartWorkers(n, limit, fails) ==
  /\ wn = n /\ wlimit = limit /\ wfail = fails
  /\ waiting = 1..n /\ running = {} /\ done = <<>> /\ merged = <<>>
  /\ wresult = "running"

CanTake == Cardinality(running) < wlimit /\ wresult = "running"
Take(j) == /\ CanTake /\ j \in waiting
           /\ waiting' = waiting \ {j} /\ running' = running \cup {j}
           /\ UNCHANGED <<wn, wlimit, done, merged, wfail, wresult>>
Finish(j) == /\ j \in running
             /\ running' = running \ {j} /\ done' = Append(done, j)
             /\ IF j \in wfail THEN UNCHANGED merged ELSE merged' = (j :> j) @@ merged
             /\ UNCHANGED <<wn, wlimit, waiting, wfail, wresult>>
\* a failing case ends the sampling once it is known, or after all others
Collect == /\ wresult = "running"
           /\ \/ /\ waiting = {} /\ running = {}
                 /\ wresult' = IF wfail = {} THEN "ok" ELSE "failed"
              \/ /\ \E x \in 1..Len(done) : done[x] \in wfail
                 /\ wresult' = "failed"
           /\ UNCHANGED <<wn, wlimit, waiting, running, done, merged, wfail>>
WNext == \/ \E j \in waiting : Take(j)
         \/ \E j \in running : Finish(j)
         \/ Collect
Returned == [j \in 1..wn |-> merged[j]]
===============================================================================
