-------------------------------- MODULE MCTrim --------------------------------
(* Removing species one at a time, in any order, is the same as removing them      *)
(* together, for every single reaction over three species (reactions do not         *)
(* influence each other, so one is enough).                                         *)
EXTENDS Trim, Judge
CONSTANTS MaxSide

Sp == {1, 2, 3}
RECURSIVE Listed(_, _)
\* the set as sorted sequence of pairs with amount v
Listed(S, v) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x
                     IN <<<<m, v>>>> \o Listed(S \ {m}, v)
Sides == {Listed(S, 1) : S \in {S \in SUBSET Sp : Cardinality(S) \in 1..MaxSide}}
Effs == {SelectSeq(<<<<1, a>>, <<2, b>>, <<3, c>>>>, LAMBDA x : x[2] >= 0) :
           a \in {-1, 0, 2}, b \in {-1, 1}, c \in {-1, 1}}
Bodies == {[tb |-> FALSE, deff |-> 0, eff |-> <<>>]} \cup
          {[tb |-> TRUE, deff |-> d, eff |-> e] : d \in {0, 1}, e \in Effs}
Orders == {<<>>, <<<<1, 2>>>>, <<<<3, 1>>>>}
Reactions == {[r |-> r, p |-> p, ord |-> o, tb |-> b.tb, deff |-> b.deff, eff |-> b.eff] :
                r \in Sides, p \in Sides, o \in Orders, b \in Bodies}

VARIABLES start, model, gone
vars == <<start, model, gone>>
Init == /\ \E x \in Reactions : start = [species |-> <<1, 2, 3>>, rx |-> <<x>>]
        /\ model = start
        /\ gone = {}
Next == \E s \in Sp \ gone : /\ model' = Remove(model, {s})
                             /\ gone' = gone \cup {s}
                             /\ UNCHANGED start

Confluent == model = Remove(start, gone)
\* nothing that remains mentions a removed species
Clean == \A i \in 1..Len(model.rx) :
           LET x == model.rx[i]
           IN (Keys(x.r) \cup Keys(x.p) \cup Keys(x.ord) \cup Keys(x.eff)) \cap gone = {}
\* only the efficiencies of a kept reaction differ, and only by removed species
Rest == \A i \in 1..Len(model.rx) :
          /\ [model.rx[i] EXCEPT !.eff = start.rx[1].eff] = start.rx[1]
          /\ \A k \in 1..Len(start.rx[1].eff) :
               start.rx[1].eff[k][1] \notin gone =>
                 \E l \in 1..Len(model.rx[i].eff) : model.rx[i].eff[l] = start.rx[1].eff[k]
\* a reaction is only lost if it mentions a removed species
Needed == (start.rx # <<>> /\ model.rx = <<>>) =>
            LET x == start.rx[1]
            IN (Keys(x.r) \cup Keys(x.p) \cup Keys(x.ord) \cup Keys(x.eff)) \cap gone # {}

GenNext == /\ gone = {}
           /\ Gen(start.rx[1])
           /\ gone' = Sp /\ UNCHANGED <<start, model>>
=============================================================================
