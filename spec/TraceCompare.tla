----------------------------- MODULE TraceCompare ------------------------------
(* Judges comparisons: rec.a and rec.b describe the models, rec.ab and rec.ba are   *)
(* the answers ("equal", "different" or an error) for both orders, rec.aa for the   *)
(* first model with itself; rec.same: the models still describe alike afterwards.   *)
EXTENDS Compare, Judge

ModelOf(d) == [sp |-> [k \in 1..Len(d.species) |->
                         <<d.species[k], d.comp[k], d.thermo[k], d.tran[k]>>],
               rx |-> d.rx]
Clauses(rec) ==
  LET want == IF Equal(ModelOf(rec.a), ModelOf(rec.b)) THEN "equal" ELSE "different"
  IN <<<<"first with second: " \o want \o " expected", rec.ab = want>>,
       <<"second with first: " \o want \o " expected", rec.ba = want>>,
       <<"first with itself", rec.aa = "equal">>,
       <<"models unchanged", rec.same>>>>

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
===============================================================================
