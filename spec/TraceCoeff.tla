------------------------------ MODULE TraceCoeff ------------------------------
(* Judges interaction matrices computed by the real code.                          *)
(* rec.src = "mech": synthetic mechanism; rec.rxns, rec.y (integer amounts): the   *)
(*   net rates of progress themselves follow from the specification.               *)
(* rec.src = "rates": mechanism of real size (rec.rx) with the exact net rates of  *)
(*   progress rec.q it has in that state; only rows rec.rows are compared.         *)
(* rec.got: rows of coefficients in millionths, rounded down (-7: not a number in  *)
(*   range); rec.zero: rows that are exactly zero; rec.diag: all diagonals are zero *)
EXTENDS Coeff, BigRates, Judge

Near(x, y) == x - y <= 1 /\ y - x <= 1

SmallRows(rec) ==
  LET q == TLCEval([j \in 1..Len(rec.rxns) |-> NetRate(rec.rxns[j], rec.y)])
      M == TLCEval(Matrix(rec.method, rec.rxns, q, rec.n))
  IN TLCEval([a \in 1..rec.n |-> [b \in 1..rec.n |->
        QFloor(M[a][b], 1000000, 90000000)]])
SmallDead(rec, a) ==
  LET q == [j \in 1..Len(rec.rxns) |-> NetRate(rec.rxns[j], rec.y)]
  IN \A j \in 1..Len(rec.rxns) : SpRate(rec.rxns, q, a, j) = 0

\* real mechanisms
RowDrg(rec, a) ==
  LET f == FluxesOf(rec.rx, rec.q, a)
      den == TLCEval(IF rec.method = "DRG" THEN BDrgDen(f) ELSE BDenFlux(f))
      partners == TLCEval(UNION {Members(rec.rx[j]) : j \in DOMAIN f})
  IN TLCEval([b \in 1..rec.n |-> IF b = a \/ b \notin partners THEN 0 ELSE
        LET v == TLCEval(IF rec.method = "DRG" THEN BDrgNum(rec.rx, f, b)
                         ELSE BDrgepNum(rec.rx, f, b))
        IN Millionths(v, den)])

PfaRows(rec) ==
  LET n == rec.n
      f == TLCEval([a \in 1..n |-> FluxesOf(rec.rx, rec.q, a)])
      den == TLCEval([a \in 1..n |-> BDenFlux(f[a])])
      near == TLCEval([a \in 1..n |-> UNION {Members(rec.rx[j]) : j \in DOMAIN f[a]} \ {a}])
      pro == TLCEval([a \in 1..n |-> TLCEval([b \in near[a] |->
                        TLCEval(BOf(Nano(BPro(rec.rx, f[a], b), den[a])))])])
      con == TLCEval([a \in 1..n |-> TLCEval([b \in near[a] |->
                        TLCEval(BOf(Nano(BCon(rec.rx, f[a], b), den[a])))])])
      giga == BOf(1000000000)
      first(a, b) == IF b \in near[a] THEN BMul(BAdd(pro[a][b], con[a][b]), giga) ELSE <<>>
      RECURSIVE second(_, _, _)
      second(a, b, S) ==
        IF S = {} THEN <<>>
        ELSE LET m == CHOOSE m \in S : TRUE
             IN BAdd(BAdd(BMul(pro[a][m], pro[m][b]), BMul(con[a][m], con[m][b])),
                     second(a, b, S \ {m}))
      value(a, b) == BAdd(first(a, b), second(a, b, {m \in near[a] : b \in near[m]}))
  IN [k \in 1..Len(rec.rows) |->
        LET a == rec.rows[k]
        IN TLCEval([b \in 1..n |-> IF a = b THEN 0
              ELSE QFloor(<<value(a, b), BMul(giga, giga)>>, 1000000, 90000000)])]

RealRows(rec) ==
  IF rec.method = "PFA" THEN TLCEval(PfaRows(rec))
  ELSE TLCEval([k \in 1..Len(rec.rows) |-> RowDrg(rec, rec.rows[k])])
RealDead(rec, a) ==
  LET f == FluxesOf(rec.rx, rec.q, a) IN BDenFlux(f) = <<>>

Clauses(rec) ==
  LET want == IF rec.src = "mech" THEN SmallRows(rec) ELSE RealRows(rec)
      rows == IF rec.src = "mech" THEN [a \in 1..rec.n |-> a] ELSE rec.rows
      dead(a) == IF rec.src = "mech" THEN SmallDead(rec, a) ELSE RealDead(rec, a)
  IN <<<<"coefficients", \A k \in 1..Len(rows) : \A b \in 1..rec.n :
                            Near(rec.got[k][b], want[k][b])>>,
       <<"zero rates", \A k \in 1..Len(rows) : dead(rows[k]) => rec.zero[k]>>,
       <<"diagonal", rec.diag>>,
       <<"arguments", rec.same>>>>

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
=============================================================================
