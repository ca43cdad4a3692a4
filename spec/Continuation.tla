---------------------------- MODULE Continuation ----------------------------
(* Marching along the response curve of a stirred reactor.  A step is accepted  *)
(* (a new solution, of any residence time) or rejected (the step size changes,  *)
(* nothing else).  The march turns where the residence time stops falling; the  *)
(* first turn is extinction.  Residence times are natural numbers (BigNat).     *)
EXTENDS Integers, Sequences, FiniteSets, BigNat

CONSTANT Tenth            \* 0.1 s in the unit of the residence times
VARIABLES taus, falling, folds, iext, status
cvars == <<taus, falling, folds, iext, status>>

BLess(a, b) == BCmp(a, b) < 0

Begin(t0, t1) ==
  /\ taus = <<t0, t1>> /\ falling = TRUE /\ folds = 0 /\ iext = 0 /\ status = "march"

\* without solutions at both residence times of the start there is no curve
CannotBegin ==
  /\ taus = <<>> /\ falling = TRUE /\ folds = 0 /\ iext = 0 /\ status = "failed"

Smallest(s) == CHOOSE k \in 1..Len(s) :
  /\ \A j \in 1..Len(s) : BLeq(s[k], s[j])
  /\ \A j \in 1..(k - 1) : BLess(s[k], s[j])

TurnPending ==
  LET n == Len(taus) IN
  IF falling THEN BLess(taus[n - 1], taus[n]) ELSE BLess(taus[n], taus[n - 1])

\* the direction changed with the last point
Turn(full) ==
  /\ status = "march" /\ TurnPending
  /\ falling' = ~falling /\ folds' = folds + 1
  /\ iext' = IF folds = 0 THEN Smallest(taus) ELSE iext
  /\ status' = IF folds = 0 /\ full THEN "march" ELSE "ok"
  /\ UNCHANGED taus

Accept(t) ==
  /\ status = "march" /\ ~TurnPending
  /\ taus' = Append(taus, t)
  /\ UNCHANGED <<falling, folds, iext, status>>

Reject == status = "march" /\ ~TurnPending /\ UNCHANGED cvars

\* the step size or the number of steps is exhausted
GiveUp ==
  /\ status = "march" /\ ~TurnPending
  /\ status' = IF iext = 0 THEN "failed" ELSE "ok"
  /\ UNCHANGED <<taus, falling, folds, iext>>

-----------------------------------------------------------------------------
(* The three sample points, as indices of the burning branch 1..n.              *)
\* i is as near to m as any point of the branch; TwiceLeq(s): 2 m <= s
Nearest(i, n, TwiceLeq(_), TwiceGeq(_)) ==
  \A j \in 1..n : LET s == BAdd(taus[i], taus[j]) IN
    IF BLess(taus[i], taus[j]) THEN TwiceLeq(s)
    ELSE IF BLess(taus[j], taus[i]) THEN TwiceGeq(s) ELSE TRUE
NearPoints(n) == LET two == BAdd(Tenth, Tenth) IN
  {i \in 1..n : Nearest(i, n, LAMBDA s : BLeq(two, s), LAMBDA s : BLeq(s, two))}
\* nearest to the geometric mean of the extinction time and that of point near
MidPoints(n, near) == LET p == BMul(BOf(4), BMul(taus[n], taus[near])) IN
  {i \in 1..n : Nearest(i, n, LAMBDA s : BLeq(p, BMul(s, s)), LAMBDA s : BLeq(BMul(s, s), p))}
\* <<extinction, mid, near>>
Points(n) == UNION {{<<n, m, q>> : m \in MidPoints(n, q)} : q \in NearPoints(n)}

-----------------------------------------------------------------------------
\* (two points of exactly equal residence time are no turn)
UpperFalls == iext # 0 => \A k \in 1..(iext - 1) : BLeq(taus[k + 1], taus[k])
Reported == /\ status = "ok" => iext # 0
            /\ status = "failed" => iext = 0
HasPoints == status = "ok" => Points(iext) # {}
=============================================================================
