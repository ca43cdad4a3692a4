------------------------------ MODULE MCProfile ------------------------------
EXTENDS Profile, TLC, Json
CONSTANTS MaxLen, MaxT, NLevels
Profiles == UNION {[1..n -> -1..MaxT] : n \in 1..MaxLen}
Rising == {ts \in Profiles : ts[1] = 0 /\ ts[Len(ts)] >= ts[1]}
Init == \E ts \in Rising : Start(ts, NLevels)
Next == Scan
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)
Terminates == <>Scanned
\* generation: every profile once
GenInit == Init /\ PrintT("GEN|" \o ToJson(temps))
GenNext == FALSE /\ UNCHANGED pvars
=============================================================================
