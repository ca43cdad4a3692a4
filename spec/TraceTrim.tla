------------------------------- MODULE TraceTrim -------------------------------
(* Judges models obtained by removing species: rec.before (the original), rec.gone, *)
(* rec.got (the returned model) and rec.file (the model written and loaded again).   *)
EXTENDS Trim, Judge

\* efficiency of every species: naming one with the default efficiency changes nothing,
\* unless it is the explicit collider (default 0)
Effective(x, sp) ==
  IF ~x.tb THEN <<>>
  ELSE [k \in 1..Len(sp) |->
          LET hit == SelectSeq(x.eff, LAMBDA e : e[1] = sp[k])
          IN IF hit = <<>> THEN x.deff ELSE hit[1][2]]
Body(x, sp) ==
  [r |-> x.r, p |-> x.p, ord |-> x.ord, rev |-> x.rev, rate |-> x.rate,
   tb |-> x.tb, deff |-> x.deff, eff |-> Effective(x, sp),
   strangers |-> \E k \in 1..Len(x.eff) : x.eff[k][1] \notin {sp[j] : j \in 1..Len(sp)}]
\* where a removed reaction was the duplicate of a kept one, Cantera clears the flag
Paired(rx, i) == \E j \in 1..Len(rx) : j # i /\ rx[j].dup
                   /\ Keys(rx[j].r) = Keys(rx[i].r) /\ Keys(rx[j].p) = Keys(rx[i].p)

\* data of the kept species, in order
RECURSIVE Select(_, _, _)
Select(data, sp, S) ==
  IF sp = <<>> THEN <<>>
  ELSE (IF sp[1] \in S THEN <<>> ELSE <<data[1]>>) \o Select(Tail(data), Tail(sp), S)

Compared(got, rec, what) ==
  LET S == {rec.gone[k] : k \in 1..Len(rec.gone)}
      b == rec.before
      m == Remove([species |-> b.species, rx |-> b.rx], S)
  IN <<<<what \o " species", got.species = m.species>>,
       <<what \o " species data", /\ got.comp = Select(b.comp, b.species, S)
                                  /\ got.thermo = Select(b.thermo, b.species, S)
                                  /\ got.tran = Select(b.tran, b.species, S)>>,
       <<what \o " reactions", /\ Len(got.rx) = Len(m.rx)
                               /\ \A i \in 1..Len(m.rx) : Body(got.rx[i], m.species)
                                                               = Body(m.rx[i], m.species)>>,
       <<what \o " duplicates", Len(got.rx) = Len(m.rx) =>
            \A i \in 1..Len(m.rx) : Paired(m.rx, i) \/ ~m.rx[i].dup =>
               got.rx[i].dup = m.rx[i].dup>>,
       <<what \o " transport model", got.model = b.model>>>>

Clauses(rec) ==
  Compared(rec.got, rec, "returned")
  \o (IF rec.file.species = <<>> /\ ~rec.loaded THEN <<<<"file loads", FALSE>>>>
      ELSE Compared(rec.file, rec, "written"))
  \o <<<<"state", rec.got.T = rec.before.T /\ rec.got.P = rec.before.P>>,
       <<"written state", rec.loaded => rec.file.T = rec.before.T /\ rec.file.P = rec.before.P>>,
       <<"arguments", rec.same>>,
       <<"original", rec.fixed>>>>

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
=============================================================================
