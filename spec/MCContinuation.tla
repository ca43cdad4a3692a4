--------------------------- MODULE MCContinuation ---------------------------
(* All small curves, seeds, step-size histories; generation of scenarios.       *)
EXTENDS Continuation, Judge
CONSTANTS M,              \* positions on the curve
          DsMax,          \* largest step
          V,              \* largest residence time
          Gaps            \* enumerate the sets of rejected calls within 1..Gaps
VARIABLES curve, at, ds, full
mvars == <<cvars, curve, at, ds, full>>
TenthDef == BOf(3)

\* continuous curves without flat pieces
Curves == {c \in [1..M -> 1..V] :
             \A p \in 1..(M - 1) : c[p + 1] - c[p] \in {-1, 1}}

Init == /\ curve \in Curves
        /\ full \in BOOLEAN /\ ds = 1
        /\ \E a \in {2} : at = <<1, a>> /\ curve[a] < curve[1]
                          /\ (Begin(BOf(curve[1]), BOf(curve[a])) \/ CannotBegin)

Last == at[Len(at)]
Step == /\ Last + ds <= M
        /\ Accept(BOf(curve[Last + ds]))
        /\ at' = Append(at, Last + ds)
        /\ ds' = IF ds < DsMax /\ iext = 0 THEN ds + 1 ELSE ds
        /\ UNCHANGED <<curve, full>>
Refuse == /\ ds > 1 /\ Reject /\ ds' = ds - 1 /\ UNCHANGED <<curve, at, full>>
Stop == /\ GiveUp /\ UNCHANGED <<curve, at, ds, full>>
Flip == /\ Turn(full) /\ ds' = 1 /\ UNCHANGED <<curve, at, full>>
Next == Step \/ Refuse \/ Stop \/ Flip
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

-----------------------------------------------------------------------------
\* the first turning point of the curve, and where the rise behind it ends
Falls(p) == curve[p + 1] < curve[p]
Rises(p) == curve[p + 1] > curve[p]
FoldAt(p) == p < M /\ Rises(p) /\ \A q \in 1..(p - 1) : ~Rises(q)
\* steps cannot leap over a rise longer than two of them
Resolved(p) == \A q \in p..(p + 2 * DsMax - 1) : q < M /\ Rises(q)

Bracketed == iext # 0 => \A p \in 1..(M - 1) : (FoldAt(p) /\ Resolved(p)) =>
  /\ iext > 1 => at[iext - 1] < p + DsMax
  /\ iext < Len(at) => at[iext + 1] > p
  /\ Cardinality({q \in at[iext]..p : q < p /\ Falls(q)}) <= DsMax
  /\ at[iext] - p <= DsMax
\* a march that fails has not passed a resolved turning point
FailsHonestly == (status = "failed" /\ taus # <<>>) =>
  \A p \in 1..(M - 1) : (FoldAt(p) /\ Resolved(p)) => Last - p <= 2 * DsMax
\* going on after the first turning point changes nothing before it (and so none of the points)
Settled == [][iext # 0 => iext' = iext /\ \A k \in 1..iext : taus'[k] = taus[k]]_mvars
Ends == <>(status # "march")

-----------------------------------------------------------------------------
(* Scenarios for the real code: reactors whose curve is known in closed form.   *)
\* fold: conversion in percent, ln(tau) in tenths; what lies behind the fold
Shapes == {[fold |-> f, low |-> l, behind |-> b] :
             f \in {55, 65, 75}, l \in {-46, -30, -14}, b \in {"rise", "deeper", "wide"}}
            \cup {[fold |-> 0, low |-> l, behind |-> "none"] : l \in {-50, -90}}
Steps == {<<10, 40>>, <<2, 40>>, <<10, 10>>, <<40, 40>>}      \* ds0, ds_max in percent
Histories == {h \in SUBSET (1..Gaps) : Cardinality(h) <= 3}
\* what goes wrong: calls of the corrector that fail (or claim to have converged where
\* they have not), or all calls from the given one on
\* seeds: solutions at the residence times of the start that fail
Faults == {[rejects |-> h, from |-> 0, lies |-> l, seeds |-> {}] :
             h \in Histories, l \in BOOLEAN}
            \cup {[rejects |-> {}, from |-> n, lies |-> FALSE, seeds |-> {}] :
                     n \in {1, 2, 3, 5, 8}}
            \cup {[rejects |-> {}, from |-> 0, lies |-> l, seeds |-> s] :
                     l \in BOOLEAN, s \in {{1}, {2}, {1, 2}}}
Plain == [shape : Shapes, steps : Steps, rejects : {{}}, from : {0},
          lies : {FALSE}, seeds : {{}}]
Faulty == {[shape |-> s, steps |-> <<10, 40>>, rejects |-> f.rejects, from |-> f.from,
            lies |-> f.lies, seeds |-> f.seeds] :
             s \in {s \in Shapes : s.fold = 65}, f \in Faults}
GenAll == /\ curve \in Plain \cup Faulty
          /\ Gen(curve)
          /\ at = 0 /\ ds = 0 /\ full = FALSE
          /\ taus = <<>> /\ falling = TRUE /\ folds = 0 /\ iext = 0 /\ status = "ok"
GenNext == FALSE /\ UNCHANGED mvars
=============================================================================
