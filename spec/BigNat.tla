------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32-bit integers, as little-endian sequences of *)
(* limbs base 10^4 without leading zero limbs, and exact nonnegative rationals. *)
EXTENDS Integers, Sequences

BBase == 10000

RECURSIVE BTrim(_)
BTrim(s) == IF s = <<>> THEN s
            ELSE IF s[Len(s)] = 0 THEN BTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s

RECURSIVE BOf(_)
BOf(k) == IF k = 0 THEN <<>> ELSE <<k % BBase>> \o BOf(k \div BBase)

BLimb(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0

RECURSIVE BCarry(_, _, _, _)
\* normalise a sequence of (possibly large) limbs, from position i with carry c
BCarry(s, i, c, acc) ==
  IF i > Len(s) THEN BTrim(acc \o BOf(c))
  ELSE LET v == s[i] + c IN BCarry(s, i + 1, v \div BBase, Append(acc, v % BBase))

BMax(a, b) == IF a > b THEN a ELSE b
BMin(a, b) == IF a < b THEN a ELSE b

BAdd(a, b) ==
  BCarry([i \in 1..BMax(Len(a), Len(b)) |-> BLimb(a, i) + BLimb(b, i)], 1, 0, <<>>)

RECURSIVE BConv(_, _, _, _, _)
BConv(a, b, k, i, hi) ==
  IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + BConv(a, b, k, i + 1, hi)

BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF Len(a) = 1 /\ Len(b) = 1 THEN BOf(a[1] * b[1])
  ELSE BCarry([k \in 1..(Len(a) + Len(b) - 1) |->
                 BConv(a, b, k, BMax(1, k + 1 - Len(b)), BMin(k, Len(a)))], 1, 0, <<>>)

RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE BCmpFrom(a, b, i - 1)
\* -1, 0 or 1
BCmp(a, b) == IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1
              ELSE BCmpFrom(a, b, Len(a))
BLeq(a, b) == BCmp(a, b) <= 0

RECURSIVE BProd(_)
BProd(s) == IF s = <<>> THEN <<1>> ELSE BMul(s[1], BProd(Tail(s)))
RECURSIVE BSum(_)
BSum(s) == IF s = <<>> THEN <<>> ELSE BAdd(s[1], BSum(Tail(s)))

-----------------------------------------------------------------------------
(* Nonnegative rationals <<num, den>> with den # 0 *)
QZero == <<<<>>, <<1>>>>
QOne == <<<<1>>, <<1>>>>
QOf(n, d) == <<BOf(n), BOf(d)>>
QMul(x, y) == <<BMul(x[1], y[1]), BMul(x[2], y[2])>>
QLeq(x, y) == BLeq(BMul(x[1], y[2]), BMul(y[1], x[2]))
QMax(x, y) == IF QLeq(x, y) THEN y ELSE x
QMin(x, y) == IF QLeq(x, y) THEN x ELSE y
QIsZero(x) == x[1] = <<>>

RECURSIVE QFloorIn(_, _, _, _)
\* largest k in lo..hi with k <= x * scale, given that lo is one
QFloorIn(num, den, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF BLeq(BMul(BOf(mid), den), num) THEN QFloorIn(num, den, mid, hi)
       ELSE QFloorIn(num, den, lo, mid - 1)
\* floor(x * scale), capped at hi
QFloor(x, scale, hi) ==
  IF QIsZero(x) THEN 0 ELSE QFloorIn(BMul(x[1], BOf(scale)), x[2], 0, hi)
=============================================================================
