------------------------------ MODULE TraceGraph ------------------------------
(* Judges what the real graph searches returned for prescribed matrices.          *)
(* rec: kind, n, Ms (per state, rows of integers), targets, safe, thr and          *)
(*   kind "reach": matrix entries and thr in 1/16; kept: per state, what the trim   *)
(*     function returned; model: species of the reduced model (<<>> if not run)     *)
(*   kind "lin": entries in 1/16 (n <= 6); imp in 1/16^5                            *)
(*   kind "limbo": a whole search (base "reach" or "lin"); final: species of the     *)
(*     reduced model, limbo: species handed on, thr: the upper threshold              *)
(*   kind "exp": entries are powers 2^-e (-1: no edge); imp as exponent (-1: zero)  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Judge

Set(seq) == {seq[i] : i \in 1..Len(seq)}

RECURSIVE Reach(_, _, _, _)
Reach(M, n, thr, S) ==
  LET S2 == S \cup {b \in 1..n : \E a \in S : a # b /\ M[a][b] # 0 /\ M[a][b] >= thr}
  IN IF S2 = S THEN S ELSE Reach(M, n, thr, S2)

One == 1048576
RECURSIVE Relaxed(_, _, _)
Relaxed(M, n, est) ==
  LET e2 == TLCEval([s \in 1..n |->
              Max({est[s]} \cup {(est[a] * M[a][s]) \div 16 : a \in 1..n \ {s}})])
  IN IF e2 = est THEN est ELSE Relaxed(M, n, e2)
RECURSIVE Shortest(_, _, _)
\* exponents: 1000 stands for unreachable
Shortest(M, n, est) ==
  LET e2 == TLCEval([s \in 1..n |->
              Min({est[s]} \cup {est[a] + M[a][s] :
                     a \in {x \in 1..n \ {s} : est[x] < 1000 /\ M[x][s] >= 0}})])
  IN IF e2 = est THEN est ELSE Shortest(M, n, e2)

ImpLin(rec) ==
  LET tg == Set(rec.targets)
      st == [s \in 1..rec.n |-> IF s \in tg THEN One ELSE 0]
      all == TLCEval([k \in 1..Len(rec.Ms) |-> Relaxed(rec.Ms[k], rec.n, st)])
  IN [s \in 1..rec.n |-> Max({all[k][s] : k \in 1..Len(rec.Ms)})]
ImpExp(rec) ==
  LET tg == Set(rec.targets)
      st == [s \in 1..rec.n |-> IF s \in tg THEN 0 ELSE 1000]
      all == TLCEval([k \in 1..Len(rec.Ms) |-> Shortest(rec.Ms[k], rec.n, st)])
      best == [s \in 1..rec.n |-> Min({all[k][s] : k \in 1..Len(rec.Ms)})]
  IN [s \in 1..rec.n |-> IF best[s] = 1000 THEN -1 ELSE best[s]]


Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

ReachClauses(rec) ==
  LET tg == Set(rec.targets)
      want == TLCEval([k \in 1..Len(rec.Ms) |-> Reach(rec.Ms[k], rec.n, rec.thr, tg)])
      all == UNION {want[k] : k \in 1..Len(rec.Ms)}
  IN <<<<"reach", \A k \in 1..Len(rec.kept) : Set(rec.kept[k]) = want[k]>>,
       <<"model", rec.ran => Set(rec.model) = all \cup Set(rec.safe)>>,
       <<"order", rec.ran => Increasing(rec.model)>>>>

ImpClauses(rec) ==
  LET imp == TLCEval(IF rec.kind = "lin" THEN ImpLin(rec) ELSE ImpExp(rec))
      below(s) == IF rec.kind = "lin" THEN imp[s] < rec.thr
                  ELSE imp[s] = -1 \/ imp[s] > rec.thr
  IN <<<<"importance", \A s \in 1..rec.n : rec.imp[s] = imp[s]>>,
       <<"model", rec.ran => Set(rec.model) =
           {s \in 1..rec.n : ~below(s)} \cup Set(rec.safe)>>,
       <<"order", rec.ran => Increasing(rec.model)>>>>

LimboClauses(rec) ==
  LET tg == Set(rec.targets)
      imp == TLCEval(IF rec.base = "lin" THEN ImpLin(rec) ELSE <<>>)
      up == TLCEval(IF rec.base = "lin" THEN {s \in 1..rec.n : imp[s] >= rec.thr}
                    ELSE UNION {Reach(rec.Ms[k], rec.n, rec.thr, tg) : k \in 1..Len(rec.Ms)})
  IN <<<<"limbo", Set(rec.limbo) = Set(rec.final) \ (up \cup tg \cup Set(rec.safe))>>,
       <<"once", Cardinality(Set(rec.limbo)) = Len(rec.limbo)>>,
       <<"order", Increasing(rec.final)>>>>

Clauses(rec) == IF rec.kind = "reach" THEN ReachClauses(rec)
                ELSE IF rec.kind = "limbo" THEN LimboClauses(rec) ELSE ImpClauses(rec)

VARIABLE i
Init == i \in 1..Len(Trace)
Next == i > 0 /\ Verdict(i, Clauses(Trace[i])) /\ i' = -i
=============================================================================
