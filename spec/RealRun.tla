------------------------------- MODULE RealRun -------------------------------
(* A reduction with real simulations (no stand-ins): the model that was returned *)
(* and written is evaluated again.  Errors in ppm, species as indices.           *)
EXTENDS Integers, Sequences, FiniteSets, Judge

Range(s) == {s[q] : q \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= 5000 + a \div 50

Clauses(rec) ==
  IF rec.outcome # "ok" THEN <<<<"outcome", rec.outcome = "SystemExit">>>>
  ELSE
  <<<<"order", \A q \in 1..(Len(rec.species) - 1) : rec.species[q] < rec.species[q + 1]>>,
    <<"protected", Range(rec.protect) \subseteq Range(rec.species)>>,
    <<"written", rec.written = rec.species /\ rec.reactions = rec.writtenreactions>>,
    \* every reaction among the remaining species is kept
    <<"reactions", rec.reactions = rec.expected>>,
    <<"error", Close(rec.error, rec.again)>>,
    <<"limit", rec.error <= rec.limit /\ rec.again <= rec.limit + rec.limit \div 50 + 5000>>>>

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
=============================================================================
