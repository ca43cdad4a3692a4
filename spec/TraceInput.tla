------------------------------ MODULE TraceInput -------------------------------
(* Recorded parsings of real input files.  rec.inp: the input in tokens; rec.out:     *)
(* "accepted" or "rejected"; rec.top, rec.cases: tokens of what was passed on;         *)
(* names of species in rec.asked, rec.targets, rec.mixtures and rec.safe.              *)
EXTENDS Input, Judge
VARIABLES i, done
Set(s) == {s[j] : j \in 1..Len(s)}
Clauses(rec) ==
  LET ok == Accepted(rec.inp)
      c == Cases(rec.inp) IN
  <<<<"decision", rec.out = (IF ok THEN "accepted" ELSE "rejected")>>,
    <<"simulated", ok \/ ~rec.simulated>>,
    <<"unmodified", rec.unmodified>>,
    <<"passed", ~ok \/ rec.out # "accepted" \/ rec.top = Passed(rec.inp.top)>>,
    <<"cases", ~ok \/ rec.out # "accepted" \/
         rec.cases = [j \in 1..Len(c) |-> PassedCase(c[j][1], c[j][2])]>>,
    <<"retained", ~ok \/ rec.out # "accepted" \/
         Set(rec.safe) = Retained(Set(rec.asked), Set(rec.targets), Set(rec.mixtures))>>>>
Init == i \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ Verdict(i, Clauses(Trace[i]))
===============================================================================
