----------------------------- MODULE TraceConvert ------------------------------
(* Judges conversions to Chemkin and back: rec.supported, rec.outcome ("ok",         *)
(* "refused" or "failed"), rec.a and rec.b (the models), rec.els (their elements in  *)
(* order), rec.transport (all species have transport data) and rec.rates             *)
(* (<<original, converted>>, scaled to nine digits, of every reaction and state).     *)
EXTENDS Integers, Sequences, FiniteSets, Judge

Amount(pairs, s) ==
  LET hit == SelectSeq(pairs, LAMBDA e : e[1] = s)
  IN IF hit = <<>> THEN 0 ELSE hit[1][2]
Named(pairs, s) == \E k \in 1..Len(pairs) : pairs[k][1] = s

(* A species that takes part on both sides may be written as an explicit collider:    *)
(* a third body for which only that species counts.                                   *)
Effective(x, n) == [s \in 1..n |-> IF Named(x.eff, s) THEN Amount(x.eff, s) ELSE x.deff]
Collider(x, n) ==
  IF ~x.tb \/ x.ff THEN 0
  ELSE LET e == Effective(x, n)
           S == {s \in 1..n : e[s] # 0}
       IN IF Cardinality(S) = 1 /\ \A s \in S : e[s] = 1000000
          THEN CHOOSE s \in S : TRUE ELSE 0
Meaning(x, n) ==
  LET c == Collider(x, n)
      Plus(s) == IF s = c THEN 1000000 ELSE 0
  IN [r |-> [s \in 1..n |-> Amount(x.r, s) + Plus(s)],
      p |-> [s \in 1..n |-> Amount(x.p, s) + Plus(s)],
      order |-> [s \in 1..n |-> Plus(s) +
                   (IF Named(x.ord, s) THEN Amount(x.ord, s) ELSE Amount(x.r, s))],
      rev |-> x.rev, rate |-> x.rate,
      body |-> IF ~x.tb \/ c # 0 THEN <<>> ELSE Effective(x, n),
      strangers |-> Named(x.r \o x.p \o x.ord \o x.eff, 0)]

Abs(v) == IF v < 0 THEN -v ELSE v
Tolerance == 20000    \* of 10^8..10^9

Clauses(rec) ==
  IF ~rec.supported THEN <<<<"refused", rec.outcome = "refused">>>>
  ELSE IF rec.outcome # "ok" THEN <<<<"converted: " \o rec.outcome, FALSE>>>>
  ELSE LET a == rec.a
           b == rec.b
           n == Len(a.species)
           same == Len(a.rx) = Len(b.rx)
       IN <<<<"elements", rec.els[1] = rec.els[2]>>,
            <<"species", a.species = b.species>>,
            <<"composition", a.comp = b.comp>>,
            <<"thermo", a.thermo = b.thermo>>,
            <<"transport", rec.transport => a.tran = b.tran>>,
            <<"number of reactions", same>>,
            <<"reactions", same => \A k \in 1..Len(a.rx) :
                               Meaning(a.rx[k], n) = Meaning(b.rx[k], n)>>,
            <<"duplicates", same => \A k \in 1..Len(a.rx) : a.rx[k].dup = b.rx[k].dup>>,
            <<"rates", \A k \in 1..Len(rec.rates) :
                               Abs(rec.rates[k][1] - rec.rates[k][2]) <= Tolerance>>>>

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
===============================================================================
