-------------------------------- MODULE Convert --------------------------------
(* Chemkin files as a medium: a writer that turns reactions into lines and a reader *)
(* that consumes them one at a time.                                                *)
(*                                                                                  *)
(* A reaction is [kind, n2, form, rows, eff, ford, dup, rev]:                        *)
(*   kind  elementary, three-body (M), collider (a species instead of M), falloff,  *)
(*         falloff-collider, activated, plog, cheb                                  *)
(*   n2    twice the order in the reactants (explicit orders included), without     *)
(*         third body                                                               *)
(*   form  blending of the two limits: L (Lindemann), T3, T4 (Troe), S (SRI)        *)
(*   rows  number of pressures of a PLOG table                                      *)
(* Concentrations are in kmol/m3 in the model and in mol/cm3 in the file, so a rate  *)
(* coefficient of overall order N has 1000^(N-1) times its value in the file.  The   *)
(* exponents are counted in halves.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Limits == {"falloff", "falloff-collider", "activated"}

\* lines of one reaction: [t |-> keyword, e |-> twice the exponent of 1000, ...]
Line(t, e) == [t |-> t, e |-> e]
MainLine(r) ==
  [t |-> "equation", n2 |-> r.n2, rev |-> r.rev,
   body |-> CASE r.kind = "three-body" -> "+M"
              [] r.kind = "collider" -> "+C"
              [] r.kind = "falloff-collider" -> "(+C)"
              [] r.kind \in {"falloff", "activated"} -> "(+M)"
              [] OTHER -> "",
   e |-> CASE r.kind \in {"three-body", "collider"} -> r.n2
           [] r.kind = "cheb" -> 0
           [] OTHER -> r.n2 - 2]
Times(n, x) == [k \in 1..n |-> x]
Opt(b, s) == IF b THEN s ELSE <<>>
Write(r) ==
  <<MainLine(r)>>
  \o Opt(r.eff, <<Line("efficiencies", 0)>>)
  \o Opt(r.kind \in {"falloff", "falloff-collider"}, <<Line("LOW", r.n2)>>)
  \o Opt(r.kind = "activated", <<Line("HIGH", r.n2 - 4)>>)
  \o Opt(r.kind \in Limits /\ r.form # "L", <<Line(r.form, 0)>>)
  \o Opt(r.kind = "plog", Times(r.rows, Line("PLOG", r.n2 - 2)))
  \o Opt(r.kind = "cheb", <<Line("TCHEB", 0), Line("PCHEB", 0), Line("CHEB", r.n2 - 2)>>)
  \o Opt(r.ford, <<Line("FORD", 0)>>)
  \o Opt(r.dup, <<Line("DUPLICATE", 0)>>)

RECURSIVE WriteAll(_)
WriteAll(rs) == IF rs = <<>> THEN <<>> ELSE Write(rs[1]) \o WriteAll(Tail(rs))

(* The reader: the lines since the last equation belong to it.                       *)
NoReaction == <<>>
Has(ls, t) == \E k \in 1..Len(ls) : ls[k].t = t
Hits(ls, t) == SelectSeq(ls, LAMBDA x : x.t = t)
Understand(ls) ==
  LET m == ls[1]
      low == Has(ls, "LOW")
      high == Has(ls, "HIGH")
      kind == CASE low /\ m.body = "(+C)" -> "falloff-collider"
                [] low -> "falloff"
                [] high -> "activated"
                [] Has(ls, "PLOG") -> "plog"
                [] Has(ls, "CHEB") -> "cheb"
                [] m.body = "+M" -> "three-body"
                [] m.body = "+C" -> "collider"
                [] OTHER -> "elementary"
      \* twice the overall order minus two: the exponent that undoes the units
      extra == IF m.body \in {"+M", "+C"} THEN 2 ELSE 0
  IN [kind |-> kind, n2 |-> m.n2, rev |-> m.rev,
      form |-> CASE Has(ls, "T3") -> "T3" [] Has(ls, "T4") -> "T4" [] Has(ls, "S") -> "S"
                 [] OTHER -> "L",
      rows |-> Len(Hits(ls, "PLOG")),
      eff |-> Has(ls, "efficiencies"), ford |-> Has(ls, "FORD"), dup |-> Has(ls, "DUPLICATE"),
      \* what is left of the unit factors: all zero if the values are understood
      left |-> {IF kind = "cheb" THEN 0 ELSE m.e - (m.n2 - 2 + extra)}
               \cup {Hits(ls, "LOW")[k].e - m.n2 : k \in 1..Len(Hits(ls, "LOW"))}
               \cup {Hits(ls, "HIGH")[k].e - (m.n2 - 4) : k \in 1..Len(Hits(ls, "HIGH"))}
               \cup {Hits(ls, "PLOG")[k].e - (m.n2 - 2) : k \in 1..Len(Hits(ls, "PLOG"))}
               \cup {Hits(ls, "CHEB")[k].e - (m.n2 - 2) : k \in 1..Len(Hits(ls, "CHEB"))}]

\* what must come out: the reaction, with nothing left of the unit factors
Expected(r) == [kind |-> r.kind, n2 |-> r.n2, rev |-> r.rev,
                form |-> IF r.kind \in Limits THEN r.form ELSE "L",
                rows |-> IF r.kind = "plog" THEN r.rows ELSE 0,
                eff |-> r.eff, ford |-> r.ford, dup |-> r.dup, left |-> {0}]
===============================================================================
