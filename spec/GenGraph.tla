------------------------------- MODULE GenGraph -------------------------------
(* Prints every initial state of the graph machine, as input for the real code.   *)
EXTENDS MCGraph, Judge
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>>
            ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o AsSeq(S \ {m})
GenNext == /\ est # <<>>
           /\ Gen([Ms |-> Ms, targets |-> AsSeq(targets), thr |-> thr])
           /\ est' = <<>> /\ UNCHANGED <<Ms, targets, thr>>
=============================================================================
