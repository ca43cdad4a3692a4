------------------------------- MODULE MCConvert -------------------------------
(* Reading what was written gives the reactions back, for every pair of reactions   *)
(* of a file (lines must be attributed to the right one).                           *)
EXTENDS Convert, Judge
CONSTANTS Orders2, Second

Kinds == {"elementary", "three-body", "collider", "falloff", "falloff-collider",
          "activated", "plog", "cheb"}
Reaction == {r \in [kind : Kinds, n2 : Orders2, form : {"L", "T3", "T4", "S"}, rows : 0..3,
                    eff : BOOLEAN, ford : BOOLEAN, dup : BOOLEAN, rev : BOOLEAN] :
               /\ r.kind \in Limits \/ r.form = "L"
               /\ (r.kind = "plog") = (r.rows > 0)
               /\ r.eff => r.kind \in {"three-body", "falloff", "activated"}
               /\ r.ford => ~r.rev}
Follower == {r \in Reaction : r.n2 = 2 /\ r.dup = r.ford /\ r.rows \in {0, 2}
                              /\ (Second \/ r.kind = "elementary")}

VARIABLES input, file, at, held, output
vars == <<input, file, at, held, output>>
Init == /\ \E r \in Reaction, s \in Follower : input = <<r, s>>
        /\ file = WriteAll(input)
        /\ at = 1 /\ held = <<>> /\ output = <<>>
Flush == IF held = <<>> THEN output ELSE Append(output, Understand(held))
Read ==
  /\ at <= Len(file)
  /\ IF file[at].t = "equation"
     THEN output' = Flush /\ held' = <<file[at]>>
     ELSE held' = Append(held, file[at]) /\ UNCHANGED output
  /\ at' = at + 1
  /\ UNCHANGED <<input, file>>
End ==
  /\ at = Len(file) + 1
  /\ output' = Flush /\ held' = <<>> /\ at' = at + 1
  /\ UNCHANGED <<input, file>>
Next == Read \/ End

RoundTrip == at = Len(file) + 2 =>
               /\ Len(output) = 2
               /\ \A k \in 1..2 : output[k] = Expected(input[k])
\* reactions come out in order and are never changed by later lines
Prefix == \A k \in 1..Len(output) : output[k] = Expected(input[k])

GInit == /\ \E r \in Reaction : input = r /\ Gen(r)
         /\ file = 0 /\ at = 0 /\ held = 0 /\ output = 0
GNext == FALSE /\ UNCHANGED vars
===============================================================================
