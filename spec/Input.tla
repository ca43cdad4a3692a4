-------------------------------- MODULE Input ----------------------------------
(* Input files of a reduction: which are accepted, what is passed on, and which     *)
(* species are retained.  Fields hold tokens that stand for classes of values;      *)
(* "none" is an omitted field.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* A condition (autoignition, PSR or flame).  Maps of species to amounts:            *)
(*   one, two      valid amounts of one or two species                              *)
(*   zero1, zero2, neg1, neg2    the first (second) amount is zero or negative        *)
(*   unk1, unk2    the first (second) species is not in the phase                    *)
MapTokens == {"none", "empty", "one", "two", "zero1", "zero2", "neg1", "neg2", "unk1",
              "unk2"}
Given(m) == m \notin {"none", "empty"}
ValidMap(m) == m \in {"one", "two"}
RatioTokens == {"none", "pos", "zero", "neg"}

Equivalence(c) == c.er \in {"pos", "neg"} \/ Given(c.fuel) \/ Given(c.ox)
Reactants(c) == Given(c.re)
CompleteEquivalence(c) == c.er = "pos" /\ ValidMap(c.fuel) /\ ValidMap(c.ox)
\* exactly one of a complete equivalence-ratio mixture and a reactant list
MixtureOk(c) == /\ (Equivalence(c) /\ ~Reactants(c)) \/ (~Equivalence(c) /\ Reactants(c))
                /\ Equivalence(c) => CompleteEquivalence(c)
                /\ Reactants(c) => ValidMap(c.re)
                /\ c.comp \in {"none", "mole", "mass"}
                /\ ~(c.comp = "mass" /\ c.er = "pos")
CaseOk(c, what) ==
  /\ what = "ign" => c.kind \in {"cv", "cp"}
  /\ what = "flame" => c.width \in {"none", "pos"}
  /\ c.T = "pos" /\ c.P = "pos"
  /\ MixtureOk(c)

(* The whole input: inp.top and lists of conditions inp.ign, inp.psr, inp.flame.      *)
Known(list) == list \notin {"unk1", "unk2"}
Some(list) == list \in {"one", "two"}
SA(t) == t.sa = "true"
Graph(t) == t.method \in {"DRG", "DRGEP", "PFA"}
TopOk(t) ==
  /\ t.model = "ok" /\ t.phase \in {"none", "first", "second"}
  /\ t.error = "pos"
  /\ Graph(t) \/ (t.method \in {"none", "blank"} /\ SA(t))
  /\ Graph(t) => Some(t.targets)
  /\ Known(t.targets) /\ Known(t.retained)
Cases(inp) == [j \in 1..Len(inp.ign) |-> <<inp.ign[j], "ign">>]
              \o [j \in 1..Len(inp.psr) |-> <<inp.psr[j], "psr">>]
              \o [j \in 1..Len(inp.flame) |-> <<inp.flame[j], "flame">>]
Accepted(inp) ==
  /\ TopOk(inp.top)
  /\ Cases(inp) # <<>>
  /\ \A j \in 1..Len(Cases(inp)) : CaseOk(Cases(inp)[j][1], Cases(inp)[j][2])

\* what is passed on: the value given, or the default of an omitted one
Pass(field, given) == IF given = "none" THEN field ELSE "given"
Passed(t) ==
  [model |-> "given", error |-> "given",
   method |-> Pass("blank", t.method), targets |-> Pass("empty", t.targets),
   phase |-> Pass("blank", t.phase), sa |-> Pass("false", t.sa),
   upper |-> IF t.upper = "none" /\ SA(t) THEN "0.1" ELSE Pass("null", t.upper),
   satype |-> Pass("initial", t.satype), floor |-> Pass("null", t.floor)]
PassedCase(c, what) ==
  [kind |-> IF what = "ign" THEN "given" ELSE "absent", T |-> "given", P |-> "given",
   width |-> IF what = "flame" THEN Pass("0.1", c.width) ELSE "absent",
   er |-> Pass("0", c.er), fuel |-> Pass("empty", c.fuel), ox |-> Pass("empty", c.ox),
   re |-> Pass("empty", c.re), comp |-> Pass("mole", c.comp),
   steps |-> IF what = "ign" THEN Pass("10000", c.steps) ELSE "absent",
   end |-> IF what = "ign" THEN Pass("0", c.end) ELSE "absent"]
\* species to be retained: those asked for, and those of mixtures that are no targets
Retained(asked, targets, mixtures) == asked \cup (mixtures \ targets)
===============================================================================
