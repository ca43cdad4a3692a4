----------------------------- MODULE MCIgnition ------------------------------
EXTENDS Ignition, TLC, Json, FiniteSets
CONSTANTS Len0, Temps
\* scripts of Len0 steps; after steady state nothing changes; at most one failure;
\* time advances by 2 per step
Steps == [T : Temps, conv : BOOLEAN, fail : BOOLEAN]
Ok(f) == /\ Cardinality({j \in 1..Len0 : f[j].fail}) <= 1
         /\ \A j \in 1..(Len0 - 1) : f[j].conv =>
              /\ f[j + 1].conv /\ f[j + 1].T = f[j].T /\ ~f[j + 1].fail
         /\ \A j \in 1..Len0 : f[j].fail => ~f[j].conv
Scripts == {[j \in 1..Len0 |-> [t |-> 2 * j, T |-> f[j].T, conv |-> f[j].conv,
                                fail |-> f[j].fail]] : f \in {f \in [1..Len0 -> Steps] : Ok(f)}}
Modes == {"sample", "metric"}
Limits == {[end |-> e, max |-> 10000] : e \in {3, 4, 2 * Len0}}
          \cup {[end |-> 0, max |-> m] : m \in {Len0 - 1, Len0}}
Init == \E m \in Modes, l \in Limits, s \in Scripts :
          StartCase([mode |-> m, T0 |-> 1000, end |-> l.end, max |-> l.max, script |-> s])
Spec == Init /\ [][INext]_ivars /\ WF_ivars(INext)
Terminates == <>Over
GenInit == Init /\ PrintT("GEN|" \o ToJson(sc))
GenNext == FALSE /\ UNCHANGED ivars
=============================================================================
