-------------------------------- MODULE Flame --------------------------------
(* A laminar flame simulation: solve, compare the unburned speed with the floor. *)
(* Speeds and floors in units of 1e-4 m/s, widths in mm.                          *)
EXTENDS Integers, Sequences

VARIABLES fsc,    \* scenario: mode, floor, width, fail, speeds, T
          fphase, \* "setup", "solved", "failed", "flame", "noflame"
          fspeed

fvars == <<fsc, fphase, fspeed>>

NoFloor == -1000000
Default == 500
Floor(s) == IF s.floor = NoFloor THEN Default ELSE s.floor
Width(s) == IF s.width = 0 THEN 100 ELSE s.width

StartFlame(s) == fsc = s /\ fphase = "setup" /\ fspeed = 0
Solve == /\ fphase = "setup" /\ ~fsc.fail
         /\ fspeed' = fsc.speeds[1] /\ fphase' = "solved" /\ UNCHANGED fsc
SolverFails == /\ fphase = "setup" /\ fsc.fail
               /\ fphase' = "noflame" /\ UNCHANGED <<fsc, fspeed>>
Detect == /\ fphase = "solved"
          /\ IF fspeed > Floor(fsc) THEN fphase' = "flame" /\ UNCHANGED fspeed
             ELSE fphase' = "noflame" /\ fspeed' = 0
          /\ UNCHANGED fsc
FNext == Solve \/ SolverFails \/ Detect
FOver == fphase \in {"flame", "noflame"}
FRaises == FOver /\ fphase = "noflame" /\ fsc.mode = "sample"

IsFlame(s) == ~s.fail /\ s.speeds[1] > Floor(s)
FlameIffAbove == FOver => ((fphase = "flame") <=> IsFlame(fsc))
NoFlameIsZero == fphase = "noflame" => fspeed = 0
=============================================================================
