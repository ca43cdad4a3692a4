------------------------------- MODULE MCFlame -------------------------------
EXTENDS Flame, TLC, Json
Speeds == {-3000, -500, 0, 1, 499, 500, 501, 2000, 2001, 20000}
Floors == {NoFloor, -20000, 0, 499, 500, 501, 2000}
\* the profile of the flame is part of the scenario: three points, rising
Scens == {[mode |-> m, floor |-> fl, width |-> w, fail |-> f, speeds |-> <<v, u, u>>,
           T |-> <<300, 807, 1403>>] :
            m \in {"sample", "metric"}, fl \in Floors, w \in {0, 14, 100}, f \in BOOLEAN,
            v \in Speeds, u \in {0, 9000}}
Init == \E s \in Scens : StartFlame(s)
Spec == Init /\ [][FNext]_fvars /\ WF_fvars(FNext)
Terminates == <>FOver
GenInit == Init /\ PrintT("GEN|" \o ToJson(fsc))
GenNext == FALSE /\ UNCHANGED fvars
=============================================================================
