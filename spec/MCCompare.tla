------------------------------ MODULE MCCompare --------------------------------
(* Comparison by walking along two sorted models, as a machine: pairs of entries   *)
(* are compared in the order of their keys (names, equations) and the first        *)
(* difference ends the walk.  For all pairs of small models the answer is equality *)
(* of the models, whatever their order, if keys are unique (reactions with equal   *)
(* equations must be in the same order).                                           *)
(* The module also writes the programs of changes that are executed (GEN).         *)
EXTENDS Compare, Judge

CONSTANTS Unique, Programs

Keys == 1..2
Vals == 0..1
Entry == [key : Keys, val : Vals]
Seqs == UNION {[1..n -> Entry] : n \in 0..2}
UniqueKeys(s) == \A i, j \in 1..Len(s) : s[i].key = s[j].key => i = j
Model == [sp : {s \in Seqs : UniqueKeys(s)},
          rx : {s \in Seqs : Unique => UniqueKeys(s)}]

VARIABLES a, b, part, k, left, right, answer
vars == <<a, b, part, k, left, right, answer>>

\* stable sort by key
RECURSIVE Pick(_, _)
Pick(s, key) ==
  IF s = <<>> THEN <<>>
  ELSE (IF s[1].key = key THEN <<s[1]>> ELSE <<>>) \o Pick(Tail(s), key)
Sorted(s) == Pick(s, 1) \o Pick(s, 2)

Init == /\ a \in Model /\ b \in Model
        /\ part = "count" /\ k = 1 /\ left = <<>> /\ right = <<>> /\ answer = "none"
CountParts ==
  /\ part = "count"
  /\ IF Len(a.sp) # Len(b.sp) \/ Len(a.rx) # Len(b.rx)
     THEN part' = "done" /\ answer' = "different" /\ UNCHANGED <<k, left, right>>
     ELSE part' = "sp" /\ k' = 1 /\ left' = Sorted(a.sp) /\ right' = Sorted(b.sp)
          /\ UNCHANGED answer
  /\ UNCHANGED <<a, b>>
Walk ==
  /\ part \in {"sp", "rx"} /\ k <= Len(left)
  /\ IF left[k] # right[k]
     THEN part' = "done" /\ answer' = "different" /\ UNCHANGED k
     ELSE k' = k + 1 /\ UNCHANGED <<part, answer>>
  /\ UNCHANGED <<a, b, left, right>>
Turn ==
  /\ part \in {"sp", "rx"} /\ k > Len(left)
  /\ IF part = "sp"
     THEN part' = "rx" /\ k' = 1 /\ left' = Sorted(a.rx) /\ right' = Sorted(b.rx)
          /\ UNCHANGED answer
     ELSE part' = "done" /\ answer' = "equal" /\ UNCHANGED <<k, left, right>>
  /\ UNCHANGED <<a, b>>
Next == CountParts \/ Walk \/ Turn

Correct == (answer = "equal" => Equal(a, b))
           /\ (answer = "different" /\ Unique => ~Equal(a, b))
\* nothing but an order of reactions with equal keys is taken for a difference
OnlyOrder == answer = "different" /\ Equal(a, b) => ~UniqueKeys(a.rx)

---------------------------------------------------------------------------------
Species == {"species-add", "species-remove", "species-rename", "composition",
            "thermo-a1", "thermo-a2", "thermo-a3", "thermo-a4", "thermo-a5", "thermo-a6",
            "thermo-a7", "thermo-mid", "thermo-min", "thermo-max",
            "transport-diameter", "transport-well-depth", "transport-dipole",
            "transport-polarizability", "transport-rotational-relaxation",
            "transport-acentric-factor", "transport-dispersion-coefficient",
            "transport-quadrupole-polarizability", "transport-geometry",
            "swap-thermo", "swap-transport", "swap-ranges"}
Reactions == {"reaction-add", "reaction-remove", "reaction-species", "reaction-scale",
              "reaction-reversible", "reaction-turn", "reaction-order", "duplicate",
              "rate-A", "rate-b", "rate-Ea", "low-A", "low-b", "low-Ea",
              "high-A", "high-b", "high-Ea", "plog-A", "plog-b", "plog-Ea",
              "plog-pressure", "plog-row", "troe-value", "sri-value", "troe-last",
              "falloff-form", "falloff-activated", "cheb-data", "cheb-shape",
              "cheb-temperature", "cheb-pressure", "eff-value", "eff-add", "eff-remove",
              "eff-default", "third-body", "collider", "catalyst-type",
              "blowers-energy", "blowers-A", "cheb-shift", "swap-eff", "swap-order",
              "swap-troe", "swap-sri", "swap-plog", "swap-cheb", "swap-rates",
              "swap-limits"}
Changes == Species \cup Reactions
Program == [both : {{}} \cup {{c} : c \in Changes},       \* made to both models
            one : {{}} \cup {{c} : c \in Changes},        \* made to the second
            species : BOOLEAN, reactions : BOOLEAN, copy : BOOLEAN]
Chosen == IF Programs = "single"
          THEN {p \in Program : p.both = {}}
          ELSE {p \in Program : p.one # {} /\ p.both # {} /\ (p.species = p.reactions)}
GInit == /\ a \in Chosen
         /\ Gen(a)
         /\ b = 0 /\ part = "" /\ k = 0 /\ left = 0 /\ right = 0 /\ answer = ""
GNext == FALSE /\ UNCHANGED vars
===============================================================================
