-------------------------------- MODULE Graph --------------------------------
(* Graph search as an asynchronous computation: an estimate per node, and a step  *)
(* that lets any node pass its estimate on along any of its edges.  Whatever the  *)
(* order, it ends with the declarative value: for reachability (kind "reach") the *)
(* nodes that lie on a chain of edges at or above the threshold from a target,    *)
(* for DRGEP (kind "product") the best product of coefficients over all simple    *)
(* paths from any target, over all states.  Coefficients are m/D.                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS N, D, Weights, NStates, TargetSets, Thresholds, Kind

Nodes == 1..N
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
One == Power(D, N - 1)              \* importances are multiples of 1/One

VARIABLES Ms, targets, thr, est
vars == <<Ms, targets, thr, est>>

Matrices == {M \in [Nodes -> [Nodes -> Weights]] : \A a \in Nodes : M[a][a] = 0}

\* simple paths from s to t as sequences of distinct nodes
RECURSIVE PathsFrom(_, _)
PathsFrom(path, t) ==
  IF path[Len(path)] = t THEN {path}
  ELSE UNION {PathsFrom(Append(path, x), t) :
                x \in Nodes \ {path[i] : i \in 1..Len(path)}}
RECURSIVE ProductOf(_, _)
\* product of the coefficients along a path, times One
ProductOf(M, path) ==
  IF Len(path) = 1 THEN One
  ELSE (ProductOf(M, SubSeq(path, 1, Len(path) - 1))
          * M[path[Len(path) - 1]][path[Len(path)]]) \div D
Chain(M, path) == \A i \in 1..(Len(path) - 1) :
                    M[path[i]][path[i + 1]] # 0 /\ M[path[i]][path[i + 1]] >= thr

Declared(s) ==
  IF Kind = "reach"
  THEN IF \E k \in 1..NStates, t \in targets : \E p \in PathsFrom(<<t>>, s) :
            Chain(Ms[k], p)
       THEN 1 ELSE 0
  ELSE Max({ProductOf(Ms[k], p) : k \in 1..NStates,
              p \in UNION {PathsFrom(<<t>>, s) : t \in targets}})

Start(s) == IF s \in targets THEN (IF Kind = "reach" THEN 1 ELSE One) ELSE 0

Init == /\ Ms \in [1..NStates -> Matrices]
        /\ targets \in TargetSets
        /\ thr \in Thresholds
        /\ est = [k \in 1..NStates |-> [s \in Nodes |-> Start(s)]]

Value(k, a, b) ==
  IF Kind = "reach"
  THEN IF est[k][a] = 1 /\ Ms[k][a][b] # 0 /\ Ms[k][a][b] >= thr THEN 1 ELSE 0
  ELSE (est[k][a] * Ms[k][a][b]) \div D

Relaxation(k, a, b) == /\ Value(k, a, b) > est[k][b]
                       /\ est' = [est EXCEPT ![k][b] = Value(k, a, b)]
                       /\ UNCHANGED <<Ms, targets, thr>>
Next == \E k \in 1..NStates, a \in Nodes, b \in Nodes : Relaxation(k, a, b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result(s) == Max({est[k][s] : k \in 1..NStates})
Quiet == ~ENABLED Next

\* estimates never overshoot and the computation ends with the declared values
Bounded == \A s \in Nodes : Result(s) <= Declared(s)
Correct == Quiet => \A s \in Nodes : Result(s) = Declared(s)
\* targets have full importance, and a species without any edge into it has none
Ends == \A s \in Nodes : s \in targets => Result(s) = Start(s)
\* lowering the threshold keeps more
Terminates == <>Quiet
=============================================================================
