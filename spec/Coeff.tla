-------------------------------- MODULE Coeff --------------------------------
(* Direct interaction coefficients of DRG, DRGEP and PFA, their overall          *)
(* importance, and the threshold up to which each species is kept -- all defined *)
(* exactly, over the integers, from reactions and net rates of progress.          *)
(*                                                                               *)
(* A reaction is [r |-> <<..>>, p |-> <<..>>, ...] with stoichiometric           *)
(* coefficients per species; q is a sequence of (integer) net rates of progress. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, BigNat

Abs(x) == IF x < 0 THEN -x ELSE x
Pos(x) == IF x > 0 THEN x ELSE 0
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == Min(S) IN <<m>> \o SortedSeq(S \ {m})

TakesPart(rx, s) == rx.r[s] # 0 \/ rx.p[s] # 0

-----------------------------------------------------------------------------
(* Rate of progress of an (isomer) mixture with integer amounts y: see harness/chem.py *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE ProdPow(_, _, _)
ProdPow(y, e, i) == IF i > Len(y) THEN 1 ELSE Pow(y[i], e[i]) * ProdPow(y, e, i + 1)

Body(rx, y) == IF rx.body = <<>> THEN 1
               ELSE SumOver([i \in 1..Len(y) |-> rx.body[i] * y[i]], 1..Len(y))
NetRate(rx, y) ==
  rx.k * Body(rx, y) * (ProdPow(y, rx.r, 1) - IF rx.rev THEN ProdPow(y, rx.p, 1) ELSE 0)

-----------------------------------------------------------------------------
(* rate of species a through reaction j *)
SpRate(rxns, q, a, j) == (rxns[j].p[a] - rxns[j].r[a]) * q[j]
Involving(rxns, q, b) == {j \in 1..Len(rxns) : TakesPart(rxns[j], b) /\ q[j] # 0}

RatesOf(rxns, q, n) ==
  TLCEval([a \in 1..n |-> [j \in 1..Len(rxns) |-> SpRate(rxns, q, a, j)]])

Production(w, a) == SumOver([j \in 1..Len(w[a]) |-> Pos(w[a][j])], 1..Len(w[a]))
Consumption(w, a) == SumOver([j \in 1..Len(w[a]) |-> Pos(-w[a][j])], 1..Len(w[a]))
Larger(x, y) == IF x > y THEN x ELSE y

DrgNum(rxns, q, w, a, b) ==
  SumOver([j \in 1..Len(rxns) |-> Abs(w[a][j])], Involving(rxns, q, b))
DrgDen(w, a) == SumOver([j \in 1..Len(w[a]) |-> Abs(w[a][j])], 1..Len(w[a]))

DrgepNum(rxns, q, w, a, b) == Abs(SumOver(w[a], Involving(rxns, q, b)))
FluxDen(w, a) == Larger(Production(w, a), Consumption(w, a))

PfaPro(rxns, q, w, a, b) ==
  SumOver([j \in 1..Len(rxns) |-> Pos(w[a][j])], Involving(rxns, q, b))
PfaCon(rxns, q, w, a, b) ==
  SumOver([j \in 1..Len(rxns) |-> Pos(-w[a][j])], Involving(rxns, q, b))

\* matrices of exact rationals, diagonal zero
Ratio(nu, de) == IF de = 0 \/ nu = 0 THEN QZero ELSE QOf(nu, de)

DrgMatrix(rxns, q, n) ==
  LET w == RatesOf(rxns, q, n)
      de == TLCEval([a \in 1..n |-> DrgDen(w, a)])
  IN [a \in 1..n |-> [b \in 1..n |->
        IF a = b THEN QZero ELSE Ratio(DrgNum(rxns, q, w, a, b), de[a])]]

DrgepMatrix(rxns, q, n) ==
  LET w == RatesOf(rxns, q, n)
      de == TLCEval([a \in 1..n |-> FluxDen(w, a)])
  IN [a \in 1..n |-> [b \in 1..n |->
        IF a = b THEN QZero ELSE Ratio(DrgepNum(rxns, q, w, a, b), de[a])]]

PfaMatrix(rxns, q, n) ==
  LET w == RatesOf(rxns, q, n)
      de == TLCEval([a \in 1..n |-> FluxDen(w, a)])
      pro == TLCEval([a \in 1..n |-> [b \in 1..n |-> PfaPro(rxns, q, w, a, b)]])
      con == TLCEval([a \in 1..n |-> [b \in 1..n |-> PfaCon(rxns, q, w, a, b)]])
      bpro == TLCEval([a \in 1..n |-> [b \in 1..n |-> BOf(pro[a][b])]])
      bcon == TLCEval([a \in 1..n |-> [b \in 1..n |-> BOf(con[a][b])]])
      bde == TLCEval([a \in 1..n |-> BOf(de[a])])
      Entry(a, b) ==
        IF de[a] = 0 THEN QZero
        ELSE LET second == TLCEval([m \in 1..n |->
                              IF m \in {a, b} \/ de[m] = 0 THEN <<>>
                              ELSE BAdd(BMul(bpro[a][m], bpro[m][b]),
                                        BMul(bcon[a][m], bcon[m][b]))])
                 ms == TLCEval(SortedSeq({m \in 1..n : second[m] # <<>>}))
                 num == TLCEval(BOf(pro[a][b] + con[a][b]))
             IN IF ms = <<>> THEN <<num, bde[a]>>
                ELSE LET all == TLCEval(BProd([i \in 1..Len(ms) |-> bde[ms[i]]]))
                         others(k) == BProd([i \in 1..Len(ms) |->
                                               IF i = k THEN <<1>> ELSE bde[ms[i]]])
                     IN <<BAdd(BMul(num, all),
                               BSum([k \in 1..Len(ms) |-> BMul(second[ms[k]], others(k))])),
                          BMul(bde[a], all)>>
  IN [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN QZero ELSE TLCEval(Entry(a, b))]]

Matrix(method, rxns, q, n) ==
  CASE method = "DRG" -> TLCEval(DrgMatrix(rxns, q, n))
    [] method = "DRGEP" -> TLCEval(DrgepMatrix(rxns, q, n))
    [] method = "PFA" -> TLCEval(PfaMatrix(rxns, q, n))

-----------------------------------------------------------------------------
(* Reachability at a threshold, and the threshold up to which a species is reached *)

\* species reachable from ``from`` by edges in E (a set of pairs)
RECURSIVE ReachFrom(_, _)
ReachFrom(E, S) ==
  LET S2 == S \cup {e[2] : e \in {e \in E : e[1] \in S}}
  IN IF S2 = S THEN S ELSE ReachFrom(E, S2)

EdgesAt(M, n, thr) ==
  {e \in (1..n) \X (1..n) : ~QIsZero(M[e[1]][e[2]]) /\ QLeq(thr, M[e[1]][e[2]])}

\* best path value per species from one source: widest path (min of edges) or
\* largest product; as rationals, by relaxation over paths of growing length
RECURSIVE Relax(_, _, _, _, _)
Relax(M, n, W, kind, rounds) ==
  IF rounds = 0 THEN W
  ELSE LET via(s) ==
             LET RECURSIVE best(_, _)
                 best(a, acc) ==
                   IF a > n THEN acc
                   ELSE IF QIsZero(W[a]) \/ QIsZero(M[a][s]) THEN best(a + 1, acc)
                   ELSE LET v == IF kind = "product" THEN QMul(W[a], M[a][s])
                                 ELSE QMin(W[a], M[a][s])
                        IN best(a + 1, QMax(acc, v))
             IN best(1, W[s])
           W2 == TLCEval([s \in 1..n |-> via(s)])
       IN IF W2 = W THEN W ELSE Relax(M, n, W2, kind, rounds - 1)

Huge == <<<<0, 0, 1>>, <<1>>>>     \* 10^8: more than any coefficient
BestFrom(M, n, t, kind) ==
  Relax(M, n, [s \in 1..n |-> IF s = t THEN (IF kind = "product" THEN QOne ELSE Huge)
                              ELSE QZero], kind, n)

LevelCap == 90000000
Less(x, y) == IF x < y THEN x ELSE y

\* widest paths only compare entries, so they may be rounded down first
RECURSIVE Widen(_, _, _, _)
Widen(M, n, W, rounds) ==
  IF rounds = 0 THEN W
  ELSE LET W2 == TLCEval([s \in 1..n |->
                   Max({W[s]} \cup {Less(W[a], M[a][s]) : a \in 1..n})])
       IN IF W2 = W THEN W ELSE Widen(M, n, W2, rounds - 1)
WidestLevels(Ms, n, targets) ==
  LET from(M) == Widen(M, n, [s \in 1..n |-> IF s \in targets THEN LevelCap ELSE 0], n)
      all == TLCEval([k \in 1..Len(Ms) |-> from(Ms[k])])
  IN TLCEval([s \in 1..n |-> Max({all[k][s] : k \in 1..Len(Ms)} \cup {0})])

ProductLevels(Ms, n, targets) ==
  LET all == TLCEval([t \in targets |->
               TLCEval([k \in 1..Len(Ms) |-> BestFrom(Ms[k], n, t, "product")])])
      floors == {[s \in 1..n |-> QFloor(all[t][k][s], 1000000, LevelCap)] :
                   t \in targets, k \in 1..Len(Ms)}
  IN TLCEval([s \in 1..n |-> Max({f[s] : f \in floors} \cup {0})])

(* For every species the largest threshold, in millionths (rounded down), at which it is *)
(* kept: its DRGEP importance, or the widest path from any target (DRG, PFA).            *)
Levels(method, rxns, qs, n, targets) ==
  LET Ms == TLCEval([k \in 1..Len(qs) |-> Matrix(method, rxns, qs[k], n)])
  IN IF method = "DRGEP" THEN ProductLevels(Ms, n, targets)
     ELSE WidestLevels(TLCEval([k \in 1..Len(qs) |->
            [a \in 1..n |-> [b \in 1..n |-> QFloor(Ms[k][a][b], 1000000, LevelCap)]]]),
            n, targets)
=============================================================================
