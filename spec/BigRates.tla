------------------------------- MODULE BigRates -------------------------------
(* Interaction coefficients over exact rates of arbitrary size (BigNat).  A rate   *)
(* is a pair <<sign, magnitude>>.  The definitions are those of module Coeff, but   *)
(* written over sparse lists, for mechanisms of real size.                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, BigNat

RECURSIVE BBorrow(_, _, _, _, _)
BBorrow(a, b, i, c, acc) ==
  IF i > Len(a) THEN BTrim(acc)
  ELSE LET v == a[i] - BLimb(b, i) - c
       IN IF v < 0 THEN BBorrow(a, b, i + 1, 1, Append(acc, v + BBase))
          ELSE BBorrow(a, b, i + 1, 0, Append(acc, v))
\* |a - b|
BDiff(a, b) == IF BLeq(b, a) THEN BBorrow(a, b, 1, 0, <<>>) ELSE BBorrow(b, a, 1, 0, <<>>)
BLarger(a, b) == IF BLeq(a, b) THEN b ELSE a

(* rx: sequence of [r, p] with <<species, coefficient>> lists; q: signed rates *)
CoefIn(list, s) ==
  LET hits == {k \in 1..Len(list) : list[k][1] = s}
  IN IF hits = {} THEN 0 ELSE list[CHOOSE k \in hits : TRUE][2]
Takes(rx, s) == (\E k \in 1..Len(rx.r) : rx.r[k][1] = s)
                \/ (\E k \in 1..Len(rx.p) : rx.p[k][1] = s)
Members(rx) == {rx.r[k][1] : k \in 1..Len(rx.r)} \cup {rx.p[k][1] : k \in 1..Len(rx.p)}

\* flux of species a through reaction j: <<positive part, negative part>>
Flux(rxs, q, a, j) ==
  LET net == CoefIn(rxs[j].p, a) - CoefIn(rxs[j].r, a)
      s == net * q[j][1]
      m == BMul(BOf(IF net < 0 THEN -net ELSE net), q[j][2])
  IN IF s > 0 THEN <<m, <<>>>> ELSE IF s < 0 THEN <<<<>>, m>> ELSE <<<<>>, <<>>>>

\* fluxes of a: function from the reactions in which a takes part
FluxesOf(rxs, q, a) ==
  TLCEval([j \in {j \in 1..Len(rxs) : q[j][1] # 0 /\ Takes(rxs[j], a)} |->
             Flux(rxs, q, a, j)])
RECURSIVE SumPart(_, _, _)
SumPart(f, S, part) ==
  IF S = {} THEN <<>>
  ELSE LET j == CHOOSE j \in S : TRUE IN BAdd(f[j][part], SumPart(f, S \ {j}, part))
With(rxs, f, b) == {j \in DOMAIN f : Takes(rxs[j], b)}

BPro(rxs, f, b) == SumPart(f, With(rxs, f, b), 1)
BCon(rxs, f, b) == SumPart(f, With(rxs, f, b), 2)
BProAll(f) == SumPart(f, DOMAIN f, 1)
BConAll(f) == SumPart(f, DOMAIN f, 2)
BDenFlux(f) == BLarger(BProAll(f), BConAll(f))

\* numerators and denominators of the coefficients of a
BDrgNum(rxs, f, b) == BAdd(BPro(rxs, f, b), BCon(rxs, f, b))
BDrgDen(f) == BAdd(BProAll(f), BConAll(f))
BDrgepNum(rxs, f, b) == BDiff(BPro(rxs, f, b), BCon(rxs, f, b))

\* floor(num * 10^6 / den)
Millionths(num, den) ==
  IF num = <<>> \/ den = <<>> THEN 0 ELSE QFloor(<<num, den>>, 1000000, 90000000)

\* first-generation share in millionths of millionths (10^-9 resolution suffices)
Nano(num, den) ==
  IF num = <<>> \/ den = <<>> THEN 0 ELSE QFloor(<<num, den>>, 1000000000, 1000000000)
=============================================================================
