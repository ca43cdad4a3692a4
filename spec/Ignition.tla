------------------------------ MODULE Ignition -------------------------------
(* An autoignition simulation: integration steps of a scripted reactor, on the  *)
(* path of the starting model ("sample": states are recorded, failures are      *)
(* errors) and on the path of a candidate ("metric": failures give zero).       *)
EXTENDS Integers, Sequences

VARIABLES sc,    \* scenario: mode, T0, end, max, script of [t, T, conv, fail]
          k,     \* integration steps taken
          ign,   \* step at which ignition was detected, 0 if not yet
          phase  \* "run", "failed", "steady", "exhausted", "end", "ignited"

ivars == <<sc, k, ign, phase>>

Rise400(s, j) == s.script[j].T >= s.T0 + 400
TimeAt(s, j) == IF j = 0 THEN 0 ELSE s.script[j].t

StartCase(s) == sc = s /\ k = 0 /\ ign = 0 /\ phase = "run"

MayStep == /\ phase = "run"
           /\ IF sc.end > 0 THEN TimeAt(sc, k) < sc.end ELSE k < sc.max

StepFails == /\ MayStep
             /\ sc.script[k + 1].fail
             /\ phase' = "failed"
             /\ UNCHANGED <<sc, k, ign>>

StepOk ==
  /\ MayStep
  /\ ~sc.script[k + 1].fail
  /\ k' = k + 1
  /\ ign' = IF ign = 0 /\ Rise400(sc, k + 1) THEN k + 1 ELSE ign
  /\ \/ sc.mode = "metric" /\ ign' # 0 /\ phase' = "ignited"
     \/ ~(sc.mode = "metric" /\ ign' # 0) /\ sc.end = 0
          /\ sc.script[k + 1].conv /\ phase' = "steady"
     \/ /\ ~(sc.mode = "metric" /\ ign' # 0)
        \* converging with the last step allowed may count either way
        /\ (sc.end = 0 /\ sc.script[k + 1].conv => k + 1 = sc.max)
        /\ phase' = "run"
  /\ UNCHANGED sc

EndReached == /\ phase = "run" /\ sc.end > 0 /\ TimeAt(sc, k) >= sc.end
              /\ phase' = "end" /\ UNCHANGED <<sc, k, ign>>
OutOfSteps == /\ phase = "run" /\ sc.end = 0 /\ k >= sc.max
              /\ phase' = "exhausted" /\ UNCHANGED <<sc, k, ign>>

INext == StepFails \/ StepOk \/ EndReached \/ OutOfSteps

Over == phase # "run"

\* what the caller sees: an error, or the step whose time is the ignition delay (0: zero)
Raises == /\ Over /\ sc.mode = "sample"
          /\ phase \in {"failed", "exhausted"} \/ ign = 0
Result == IF sc.mode = "metric" THEN ign ELSE IF Raises THEN -1 ELSE ign
\* the recorded states (sample path): the initial one and every step
Recorded == [j \in 1..(k + 1) |-> IF j = 1 THEN sc.T0 ELSE sc.script[j - 1].T]

-----------------------------------------------------------------------------
FirstRise(s, n) == {j \in 1..n : Rise400(s, j) /\ \A i \in 1..(j - 1) : ~Rise400(s, i)}
DelayIsFirst == ign # 0 => ign \in FirstRise(sc, k)
NoneMissed == ign = 0 => FirstRise(sc, k) = {}
ReachesEnd == phase = "end" => TimeAt(sc, k) >= sc.end
ErrorOnlyOnSample == Raises => sc.mode = "sample"
FailedBeforeIgnitionIsZero ==
  (Over /\ sc.mode = "metric" /\ phase \in {"failed", "exhausted"}) => Result = 0
=============================================================================
