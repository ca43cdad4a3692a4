------------------------------ MODULE MCWorkers --------------------------------
EXTENDS Workers, Judge
CONSTANTS MaxCases, MaxWorkers, Fixed   \* Fixed: exactly this many cases; tasks in order

Init == \E n \in (IF Fixed THEN {MaxCases} ELSE 1..MaxCases), limit \in 1..MaxWorkers :
          \E f \in (IF Fixed THEN {{}} ELSE SUBSET (1..n)) : StartWorkers(n, limit, f)
Spec == Init /\ [][WNext]_wvars /\ WF_wvars(WNext)

OnceEach == /\ \A x, y \in 1..Len(done) : x # y => done[x] # done[y]
            /\ waiting \cap running = {}
            /\ \A x \in 1..Len(done) : done[x] \notin waiting \cup running
Bounded == Cardinality(running) <= wlimit
\* the order of completion leaves no trace in what is returned
Independent == wresult = "ok" => Returned = [j \in 1..wn |-> j]
FailureKnown == wresult # "running" => (wresult = "failed" <=> wfail # {})
Ends == <>(wresult # "running")
---------------------------------------------------------------------------------
\* completion orders for the real code, where idle workers take the first waiting case
First(S) == CHOOSE x \in S : \A y \in S : x <= y
GenInit == Init /\ wfail = {}
GNext == IF waiting = {} /\ running = {} /\ wresult = "running"
         THEN Collect /\ Gen([n |-> wn, limit |-> wlimit, order |-> done])
         ELSE IF CanTake /\ waiting # {} THEN Take(First(waiting))
         ELSE \E j \in running : Finish(j)
===============================================================================
