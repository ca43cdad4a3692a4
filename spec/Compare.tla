-------------------------------- MODULE Compare --------------------------------
(* Equality of kinetic models: as bags of species and of reactions, in any order.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* how often x occurs in the sequence s
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])

\* models: [sp : species with all their data, rx : reactions with all their data]
Equal(m, n) == SameBag(m.sp, n.sp) /\ SameBag(m.rx, n.rx)
===============================================================================
