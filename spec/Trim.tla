--------------------------------- MODULE Trim ---------------------------------
(* Removing species from a model.                                                 *)
(* A model is [species |-> <<ids>>, rx |-> <<reactions>>, ...]; a reaction is       *)
(* [r, p, ord, eff |-> sequences of <<species, amount>>, tb |-> BOOLEAN, deff, ...]. *)
EXTENDS Integers, Sequences, FiniteSets

Keys(pairs) == {pairs[i][1] : i \in 1..Len(pairs)}
Without(pairs, S) == SelectSeq(pairs, LAMBDA x : x[1] \notin S)

(* A reaction is lost with any species it involves, or whose concentration enters its  *)
(* rate through an explicit order, or with the last of its explicit colliders.          *)
Lost(x, S) ==
  \/ Keys(x.r) \cap S # {}
  \/ Keys(x.p) \cap S # {}
  \/ Keys(x.ord) \cap S # {}
  \/ x.tb /\ x.deff = 0 /\ x.eff # <<>> /\ Keys(x.eff) \subseteq S

Kept(x, S) == [x EXCEPT !.eff = Without(x.eff, S)]

RECURSIVE KeepReactions(_, _)
KeepReactions(rx, S) ==
  IF rx = <<>> THEN <<>>
  ELSE (IF Lost(rx[1], S) THEN <<>> ELSE <<Kept(rx[1], S)>>) \o KeepReactions(Tail(rx), S)

Remove(m, S) == [m EXCEPT !.species = SelectSeq(m.species, LAMBDA s : s \notin S),
                          !.rx = KeepReactions(m.rx, S)]
=============================================================================
