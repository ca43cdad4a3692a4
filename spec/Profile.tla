------------------------------- MODULE Profile -------------------------------
(* Sampling of a temperature profile at evenly spaced fractions of the rise     *)
(* from the first to the last temperature: a scan over the recorded points in   *)
(* which one point may satisfy several levels.                                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES temps,   \* recorded temperatures (integers)
          levels,  \* number of levels N
          pt,      \* points scanned so far
          samples  \* point taken for each level reached so far

pvars == <<temps, levels, pt, samples>>

Rise(ts) == ts[Len(ts)] - ts[1]
\* point p reaches level k of n
Reaches(ts, n, p, k) == n * (ts[p] - ts[1]) >= k * Rise(ts)

Start(ts, n) == temps = ts /\ levels = n /\ pt = 0 /\ samples = <<>>

Scan ==
  /\ pt < Len(temps)
  /\ pt' = pt + 1
  /\ LET reached == {k \in (Len(samples) + 1)..levels :
                       \A j \in (Len(samples) + 1)..k : Reaches(temps, levels, pt + 1, j)}
     IN samples' = samples \o [k \in 1..Cardinality(reached) |-> pt + 1]
  /\ UNCHANGED <<temps, levels>>

Scanned == pt = Len(temps)

\* the property: declaratively, the first point to reach each level
FirstReaching(ts, n, k) ==
  CHOOSE p \in 1..Len(ts) : /\ Reaches(ts, n, p, k)
                            /\ \A q \in 1..(p - 1) : ~Reaches(ts, n, q, k)
Expected(ts, n) == [k \in 1..n |-> FirstReaching(ts, n, k)]

NoneEmpty == Scanned => Len(samples) = levels
FirstOnly == \A k \in 1..Len(samples) : samples[k] = FirstReaching(temps, levels, k)
Ordered == \A k \in 1..(Len(samples) - 1) : samples[k] <= samples[k + 1]
LastLevel == Scanned => temps[samples[levels]] >= temps[Len(temps)]
=============================================================================
