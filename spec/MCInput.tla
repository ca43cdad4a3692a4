------------------------------- MODULE MCInput ---------------------------------
(* A parser that stops at the first fault it comes across, checking the parts of     *)
(* the input in any order, accepts exactly the inputs of the specification; and       *)
(* inputs for the real code.                                                        *)
EXTENDS Input, Judge

CONSTANT Deep
VARIABLES inp, left, verdict
vars == <<inp, left, verdict>>

Top == [model |-> "ok", phase |-> "first", error |-> "pos", method |-> "DRG", sa |-> "none",
        targets |-> "one", retained |-> "none", upper |-> "none", satype |-> "none",
        floor |-> "none"]
Eq == [kind |-> "cv", T |-> "pos", P |-> "pos", width |-> "none", er |-> "pos",
       fuel |-> "one", ox |-> "two", re |-> "none", comp |-> "none", steps |-> "none",
       end |-> "none"]
Re == [Eq EXCEPT !.er = "none", !.fuel = "none", !.ox = "none", !.re = "two",
       !.comp = "mass"]
TopDomain ==
  [model |-> {"none", "blank", "nofile"}, phase |-> {"none", "second", "bad"},
   error |-> {"none", "zero"},
   method |-> {"DRGEP", "PFA", "none", "blank", "bad"},
   sa |-> {"true", "false"}, targets |-> {"none", "empty", "two", "unk1", "unk2"},
   retained |-> {"one", "two", "empty", "unk1", "unk2"}, upper |-> {"given"},
   satype |-> {"given"}, floor |-> {"given"}]
CaseDomain ==
  [kind |-> {"cp", "none", "bad"}, T |-> {"none", "zero", "neg"},
   P |-> {"none", "zero", "neg"}, width |-> {"pos", "zero", "neg"},
   er |-> RatioTokens, fuel |-> MapTokens, ox |-> MapTokens, re |-> MapTokens,
   comp |-> {"mole", "mass", "bad", "none"}, steps |-> {"given"}, end |-> {"given"}]

\* changes <<where, field, value>>
Whats == {"ign", "psr", "flame"}
Changes == {<<"top", f, v>> : <<f, v>> \in
               UNION {{<<f, v>> : v \in TopDomain[f]} : f \in DOMAIN TopDomain}}
           \cup UNION {{<<w, f, v>> : <<f, v>> \in
               UNION {{<<f, v>> : v \in CaseDomain[f]} : f \in DOMAIN CaseDomain}} :
                 w \in Whats}
Change(s, ch) == IF ch[1] = "top" THEN [s EXCEPT !.top[ch[2]] = ch[3]]
                 ELSE [s EXCEPT ![ch[1]][1][ch[2]] = ch[3]]
Base == [top |-> Top, ign |-> <<Eq>>, psr |-> <<Re>>, flame |-> <<Eq>>]

\* all mixtures of one condition
Mixtures == {[Eq EXCEPT !.er = e, !.fuel = f, !.ox = o, !.re = r, !.comp = c] :
               e \in RatioTokens, f \in MapTokens, o \in MapTokens, r \in MapTokens,
               c \in {"none", "mole", "mass", "bad"}}
Single(w, c) == [top |-> Top, ign |-> IF w = "ign" THEN <<c>> ELSE <<>>,
                 psr |-> IF w = "psr" THEN <<c>> ELSE <<>>,
                 flame |-> IF w = "flame" THEN <<c>> ELSE <<>>]
Tops == {[Top EXCEPT !.method = m, !.sa = s, !.targets = t, !.retained = r, !.phase = p,
                     !.upper = u] :
           m \in TopDomain.method \cup {"DRG"}, s \in TopDomain.sa \cup {"none"},
           t \in TopDomain.targets \cup {"one"}, r \in TopDomain.retained \cup {"none"},
           p \in TopDomain.phase \cup {"first"}, u \in {"none", "given"}}
Starts == {Change(Change(Base, a), b) : a \in Changes,
             b \in IF Deep THEN Changes ELSE {c \in Changes : c[1] = "ign"}}
---------------------------------------------------------------------------------
\* the parser
Part(s, p) ==
  LET t == s.top IN
  CASE p = "model" -> t.model = "ok" /\ t.phase # "bad"
    [] p = "error" -> t.error \notin {"none", "zero"}
    [] p = "method" -> IF t.method \in {"none", "blank"} THEN SA(t) ELSE Graph(t)
    [] p = "targets" -> (t.method \in {"none", "blank"} \/ Some(t.targets))
                        /\ Known(t.targets)
    [] p = "retained" -> Known(t.retained)
    [] p = "any" -> Len(s.ign) + Len(s.psr) + Len(s.flame) > 0
Parts(s) == {"model", "error", "method", "targets", "retained", "any"}
CaseParts(s) == {<<w, j>> : w \in Whats, j \in 1..3} \cap
                UNION {{<<w, j>> : j \in 1..Len(s[w])} : w \in Whats}

Init == /\ inp \in Starts /\ verdict = "none"
        /\ left = [parts |-> Parts(inp), cases |-> CaseParts(inp)]
Look(p, c) == /\ verdict = "none"
              /\ IF (IF c THEN CaseOk(inp[p[1]][p[2]], p[1]) ELSE Part(inp, p)) THEN verdict' = verdict ELSE verdict' = "rejected"
              /\ left' = IF c THEN [left EXCEPT !.cases = @ \ {p}]
                         ELSE [left EXCEPT !.parts = @ \ {p}]
              /\ UNCHANGED inp
Done == /\ verdict = "none" /\ left.parts = {} /\ left.cases = {}
        /\ verdict' = "accepted" /\ UNCHANGED <<inp, left>>
\* conditions are looked at in the order of their numbers, anything else in any order
Next == \/ \E p \in left.parts : Cardinality(left.cases) = 3 /\ Look(p, FALSE)
        \/ \E p \in left.cases : left.parts = {} /\ Look(p, TRUE)
        \/ Done
Decides == /\ verdict = "accepted" => Accepted(inp)
           /\ verdict = "rejected" => ~Accepted(inp)
\* leaving out anything that is required makes an accepted input unacceptable
Required == verdict = "accepted" =>
  /\ \A f \in {"model", "error"} : ~Accepted([inp EXCEPT !.top[f] = "none"])
  /\ Graph(inp.top) => ~Accepted([inp EXCEPT !.top.targets = "none"])
  /\ ~SA(inp.top) => ~Accepted([inp EXCEPT !.top.method = "none"])
  /\ \A w \in Whats : \A j \in 1..Len(inp[w]) :
       /\ \A f \in {"T", "P"} : ~Accepted([inp EXCEPT ![w][j][f] = "none"])
       /\ \A f \in {"er", "fuel", "ox", "re"} : Given(inp[w][j][f]) /\ inp[w][j][f] # "zero"
            => ~Accepted([inp EXCEPT ![w][j][f] = "none"])
       /\ ~Accepted([inp EXCEPT ![w][j].re = IF inp[w][j].re = "none" THEN "one"
                                             ELSE "unk1"])
---------------------------------------------------------------------------------
CONSTANT GenWhat
GInit == /\ inp \in CASE GenWhat = "pairs" -> Starts
                    [] GenWhat = "mixtures" -> {Single(w, c) : w \in Whats, c \in Mixtures}
                    [] OTHER -> {[Base EXCEPT !.top = t] : t \in Tops}
         /\ left = <<>> /\ verdict = "" /\ Gen(inp)
GNext == FALSE /\ UNCHANGED vars
===============================================================================
