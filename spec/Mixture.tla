------------------------------- MODULE Mixture -------------------------------
(* Initial state of a simulation: temperature, pressure and the mixture given   *)
(* by amounts (mole or mass basis) or by an equivalence ratio.                   *)
EXTENDS Judge

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

\* relative amounts per species: entries <<species, amount, O2 demand in halves>>
Amount(entries, s) == SumSeq([n \in 1..Len(entries) |->
                                IF entries[n][1] = s THEN entries[n][2] ELSE 0])
Demand(fuel) == SumSeq([n \in 1..Len(fuel) |-> fuel[n][2] * fuel[n][3]])
Wanted(c, s) ==
  IF c.phi[1] = 0 THEN Amount(c.reactants, s)
  ELSE c.phi[1] * 2 * Amount(c.oxidizer, "O2") * Amount(c.fuel, s)
       + c.phi[2] * Demand(c.fuel) * Amount(c.oxidizer, s)

Total(c, names) == SumSeq([n \in 1..Len(names) |-> Wanted(c, names[n])])
Abs(x) == IF x < 0 THEN -x ELSE x
\* observed fractions are in units of 1e-5
Matches(c, names, frac) ==
  LET t == Total(c, names) IN
  \A n \in 1..Len(names) : Abs(frac[n] * t - Wanted(c, names[n]) * 100000) <= 2 * t

Clauses(r) ==
  <<<<"ran", r.outcome = "ok">>,
    <<"temperature", r.outcome # "ok" \/ r.T = r.case.T>>,
    <<"pressure", r.outcome # "ok" \/ r.P = r.case.P>>,
    <<"mixture", r.outcome # "ok"
        \/ Matches(r.case, r.names, IF r.case.basis = "mass" THEN r.Y ELSE r.X)>>,
    \* deviations from constant pressure / constant density, in 1e-6
    <<"constraint", r.outcome # "ok" \/ r.kind \notin {"constant pressure", "constant volume"}
        \/ (r.kind = "constant pressure" /\ r.dP <= 20)
        \/ (r.kind = "constant volume" /\ r.dRho <= 200 /\ r.dP > 20)>>,
    <<"paths agree", r.outcome # "ok" \/ r.dDelay <= 100>>>>

VARIABLE i
Init == i \in {-n : n \in 1..Len(Trace)}
Next == i < 0 /\ i' = -i /\ Verdict(-i, Clauses(Trace[-i]))
=============================================================================
