-------------------------- MODULE TraceContinuation --------------------------
(* Response curves traced by the real code, replayed through the march.          *)
(* A record holds one reactor:                                                   *)
(*   expect   "ok", "failed" (no turning point in reach) or "any"                 *)
(*   seeds    the two residence times of the start; hot: least progress there     *)
(*   fold     progress at the true first turning point (progress falls along the  *)
(*            curve), reach: how far ln(extinction time) may lie from the fold's  *)
(*   runs     its curves (stopped at extinction or full): outcome, taus (limbs,   *)
(*            1e-18 s), c (progress), res (scaled residual of the steady state),  *)
(*            gap, pts (extinction, mid, near: tau, c, res)                       *)
EXTENDS Continuation, Judge
VARIABLES i, r, k, acc
tvars == <<cvars, i, r, k, acc>>
TenthDef == <<0, 0, 0, 0, 10>>              \* 0.1 s = 1e17 units
Rec == Trace[i]
Run == Rec.runs[r]

Ran(run) == run.outcome = "ok" /\ Len(run.taus) >= 2
Init == \E n \in 1..Len(Trace) : LET run == Trace[n].runs[1] IN
  /\ i = n /\ r = 1 /\ k = 3 /\ acc = <<>>
  /\ falling = TRUE /\ folds = 0 /\ iext = 0
  /\ taus = (IF Ran(run) THEN <<run.taus[1], run.taus[2]>> ELSE <<>>)
  /\ status = (IF Ran(run) THEN "march" ELSE "none")

Replay == /\ \/ k <= Len(Run.taus) /\ Accept(Run.taus[k]) /\ k' = k + 1
             \/ Turn(Run.full) /\ k' = k
             \/ k > Len(Run.taus) /\ GiveUp /\ k' = k
          /\ UNCHANGED <<i, r, acc>>

\* a curve may be returned without the point behind the turning point
Ext == IF iext = 0 THEN Len(taus) ELSE iext
IsPoint(p, j) == p.tau = taus[j] /\ p.c = Run.c[j]
RunClauses == LET n == Ext IN
  <<<<"seeds", taus[1] = Rec.seeds[1] /\ taus[2] = Rec.seeds[2]>>,
    <<"hot", Run.c[1] >= Rec.hot[1] /\ Run.c[2] >= Rec.hot[2]>>,
    <<"steady", \A j \in 1..n : Run.res[j] <= Rec.tol>>,
    <<"complete", Len(taus) = Len(Run.taus) /\ Len(Run.c) = Len(taus)>>,
    <<"falling", \A j \in 1..(n - 1) : BLess(taus[j + 1], taus[j]) /\ Run.c[j + 1] < Run.c[j]>>,
    <<"fold", /\ n > 1 => Run.c[n - 1] > Rec.fold
              /\ n < Len(taus) => Run.c[n + 1] < Rec.fold
              /\ Run.gap <= Rec.reach>>,
    <<"extinction", IsPoint(Run.pts[1], n)>>,
    <<"sampled", \E q \in Points(n) : IsPoint(Run.pts[2], q[2]) /\ IsPoint(Run.pts[3], q[3])>>,
    <<"states", \A q \in 1..3 : Run.pts[q].res <= Rec.tol>>>>
\* the curves of one reactor agree up to extinction, and so do the points
Agrees == LET first == Rec.runs[1] IN
  (r > 1 /\ Rec.compare /\ Ran(first) /\ Ran(Run)) =>
    /\ Run.pts = first.pts
    /\ Len(first.taus) >= Ext
    /\ SubSeq(first.taus, 1, Ext) = SubSeq(taus, 1, Ext)
    /\ SubSeq(first.c, 1, Ext) = SubSeq(Run.c, 1, Ext)
Reports == CASE Rec.expect = "ok" -> Run.outcome = "ok"
             [] Rec.expect = "failed" -> Run.outcome = "RuntimeError"
             [] OTHER -> Run.outcome \in {"ok", "RuntimeError"}

\* the simulation reports and samples the points in order (deviations, 1e-9)
Small(v) == \A q \in 1..Len(v) : v[q] <= 20000
Simulated == \A q \in 1..Len(Rec.sims) : LET m == Rec.sims[q] IN
  /\ m.outcome = "ok" /\ Len(m.metrics) = 3 /\ Small(m.metrics)
  /\ m.mode = "sample" => /\ Len(m.rows) = 3
                          /\ \A w \in 1..3 : Small(m.rows[w])

Finish ==
  /\ status \in {"ok", "failed", "none"}
  /\ acc' = acc \o Failing(<<<<"reported", Reports>>, <<"marching on", Agrees>>,
                              <<"simulation", Simulated>>>>
                           \o (IF Ran(Run) THEN RunClauses
                               ELSE <<<<"curve", Run.outcome # "ok">>>>))
  /\ IF r < Len(Rec.runs)
     THEN LET run == Rec.runs[r + 1] IN
          /\ r' = r + 1 /\ k' = 3 /\ falling' = TRUE /\ folds' = 0 /\ iext' = 0
          /\ taus' = (IF Ran(run) THEN <<run.taus[1], run.taus[2]>> ELSE <<>>)
          /\ status' = (IF Ran(run) THEN "march" ELSE "none")
     ELSE /\ status' = "judged" /\ UNCHANGED <<taus, falling, folds, iext, r, k>>
  /\ UNCHANGED i
Done == /\ status = "judged" /\ status' = "done"
        /\ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToJson(acc))
        /\ UNCHANGED <<taus, falling, folds, iext, i, r, k, acc>>
Next == Replay \/ Finish \/ Done
=============================================================================
