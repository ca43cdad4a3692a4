------------------------------- MODULE MCStore ---------------------------------
(* The files of one kind of simulation: saving in steps, ended at any point, with   *)
(* files deleted by the user in between.  What is in the files always is among the  *)
(* possibilities of SampleStore, and whatever is reused is what one run saved.      *)
EXTENDS SampleStore, Judge

CONSTANTS MaxRuns, Careful    \* Careful = FALSE: files overwritten in place
Confs == [n : 1..2, sp : 1..2]

\* contents of a file: <<run, complete>>
None == <<0, TRUE>>
VARIABLES data, out, newData, newOut, run, conf, pc, poss, got
vars == <<data, out, newData, newOut, run, conf, pc, poss, got>>

Init == /\ data = None /\ out = None /\ newData = None /\ newOut = None
        /\ run = 0 /\ conf = <<>> /\ pc = "idle" /\ poss = {Nothing}
        /\ got = [s |-> 0, m |-> 0]

c == conf[run]
Rows(f) == IF f[1] = 0 THEN 0 ELSE IF f[2] THEN conf[f[1]].n * 2 ELSE conf[f[1]].n * 2 - 1
Columns(f) == IF f[1] = 0 THEN 0 ELSE conf[f[1]].sp
\* a partly written file with as many entries as needed looks complete
Metrics(f) == IF f[1] = 0 THEN 0 ELSE IF f[2] THEN conf[f[1]].n ELSE conf[f[1]].n - 1

Start(k) == /\ pc = "idle" /\ run < MaxRuns
            /\ run' = run + 1 /\ conf' = Append(conf, k)
            /\ pc' = "check" /\ got' = [s |-> 0, m |-> 0]
            /\ UNCHANGED <<data, out, newData, newOut, poss>>
Check == /\ pc = "check"
         /\ IF data[1] # 0 /\ out[1] # 0 /\ Metrics(out) = c.n /\ Rows(data) = c.n * 2
               /\ Columns(data) = c.sp
            THEN /\ got' = [s |-> data[1], m |-> out[1]]
                 /\ pc' = "idle"
                 /\ poss' = {p \in poss : p.s = data[1]}
            ELSE /\ pc' = "simulate" /\ UNCHANGED <<got, poss>>
         /\ UNCHANGED <<data, out, newData, newOut, run, conf>>
Fail == /\ pc = "simulate" /\ pc' = "idle"
        /\ UNCHANGED <<data, out, newData, newOut, run, conf, poss, got>>
Simulated == /\ pc = "simulate" /\ pc' = IF Careful THEN "forget" ELSE "write data"
             /\ UNCHANGED <<data, out, newData, newOut, run, conf, poss, got>>
Step(from, to) == pc = from /\ pc' = to /\ UNCHANGED <<run, conf, got>>
Forget == Step("forget", "write data") /\ out' = None
          /\ UNCHANGED <<data, newData, newOut, poss>>
WriteData1 == Step("write data", "write data 2") /\ UNCHANGED <<out, newOut, poss>>
              /\ IF Careful THEN newData' = <<run, FALSE>> /\ UNCHANGED data
                 ELSE data' = <<run, FALSE>> /\ UNCHANGED newData
WriteData2 == Step("write data 2", IF Careful THEN "rename data" ELSE "write out")
              /\ UNCHANGED <<out, newOut, poss>>
              /\ IF Careful THEN newData' = <<run, TRUE>> /\ UNCHANGED data
                 ELSE data' = <<run, TRUE>> /\ UNCHANGED newData
RenameData == Step("rename data", "write out") /\ data' = newData /\ newData' = None
              /\ UNCHANGED <<out, newOut, poss>>
WriteOut1 == Step("write out", "write out 2") /\ UNCHANGED <<data, newData, poss>>
             /\ IF Careful THEN newOut' = <<run, FALSE>> /\ UNCHANGED out
                ELSE out' = <<run, FALSE>> /\ UNCHANGED newOut
WriteOut2 == Step("write out 2", IF Careful THEN "rename out" ELSE "saved")
             /\ UNCHANGED <<data, newData, poss>>
             /\ IF Careful THEN newOut' = <<run, TRUE>> /\ UNCHANGED out
                ELSE out' = <<run, TRUE>> /\ UNCHANGED newOut
RenameOut == Step("rename out", "saved") /\ out' = newOut /\ newOut' = None
             /\ UNCHANGED <<data, newData, poss>>
Saved == /\ pc = "saved" /\ pc' = "idle" /\ poss' = {[s |-> run, m |-> run]}
         /\ got' = [s |-> run, m |-> run]
         /\ UNCHANGED <<data, out, newData, newOut, run, conf>>
Crash == /\ pc \notin {"idle", "check"} /\ pc' = "idle"
         /\ poss' = AfterCrash(poss, run)
         /\ got' = [s |-> 0, m |-> 0]
         /\ UNCHANGED <<data, out, newData, newOut, run, conf>>
DeleteData == /\ pc = "idle" /\ data # None /\ data' = None /\ poss' = WithoutData(poss)
              /\ UNCHANGED <<out, newData, newOut, run, conf, pc, got>>
DeleteOut == /\ pc = "idle" /\ out # None /\ out' = None /\ poss' = WithoutMetrics(poss)
             /\ UNCHANGED <<data, newData, newOut, run, conf, pc, got>>
Next == \/ \E k \in Confs : Start(k)
        \/ Check \/ Fail \/ Simulated \/ Forget \/ WriteData1 \/ WriteData2 \/ RenameData
        \/ WriteOut1 \/ WriteOut2 \/ RenameOut \/ Saved \/ Crash \/ DeleteData \/ DeleteOut

\* what is there, as a later run sees it
Actual == [s |-> IF data # None /\ out # None THEN out[1] ELSE 0, m |-> out[1]]
Known == pc = "idle" => Actual \in poss
NoMixture == pc = "idle" /\ data # None /\ out # None => data = out
Complete == pc = "idle" => out[2] /\ data[2]
RightReuse == got.s = got.m /\ (got.s # 0 /\ pc = "idle" => conf[got.s] = c)
---------------------------------------------------------------------------------
(* Histories for the real code: runs with changing numbers of cases and species,     *)
(* runs that fail or are ended, evaluations with and without reuse, deleted files.   *)
GConfs == {<<2, 0, 0, 4>>, <<3, 0, 0, 4>>, <<2, 0, 0, 5>>, <<2, 1, 2, 4>>, <<0, 1, 2, 4>>,
           <<1, 1, 1, 5>>}
Files == {"data_ignition", "output_ignition", "data_psr", "output_psr", "data_flame",
          "output_flame"}
Event == [op : {"sample"}, conf : GConfs, how : {"plain", "crash", "fail"}]
         \cup [op : {"metrics"}, conf : GConfs, how : {"reuse", "plain"}]
         \cup [op : {"delete", "tamper"}, conf : {<<>>}, how : Files]
First == {e \in Event : e.op = "sample"}
Last == {e \in Event : e.how \in {"plain", "reuse"}}
GInit == /\ \E a \in First, b \in Event, d \in Last : got = <<a, b, d>> /\ Gen(got)
         /\ data = 0 /\ out = 0 /\ newData = 0 /\ newOut = 0 /\ run = 0 /\ conf = 0
         /\ pc = 0 /\ poss = 0
GNext == FALSE /\ UNCHANGED vars

(* One kind at a time: every change of the numbers of cases and species from one run to  *)
(* the next, and every way in which the files can have entries too few or too many.      *)
One(kind, n, sp) == [q \in 1..4 |-> IF q = kind THEN n ELSE IF q = 4 THEN sp ELSE 0]
FilesOf == <<{"data_ignition", "output_ignition"}, {"data_psr", "output_psr"},
             {"data_flame", "output_flame"}>>
Plain(c0) == [op |-> "sample", conf |-> c0, how |-> "plain"]
Lasts(c0) == {Plain(c0), [op |-> "metrics", conf |-> c0, how |-> "reuse"]}
PInit == /\ \E kind \in 1..3, n \in 1..3, sp \in {4, 5} :
              \/ \E n2 \in 1..3, sp2 \in {4, 5} : \E z \in Lasts(One(kind, n2, sp2)) :
                   got = <<Plain(One(kind, n, sp)), z>> /\ Gen(got)
              \/ \E f \in FilesOf[kind], way \in 0..6 : \E z \in Lasts(One(kind, n, sp)) :
                   /\ n < 3
                   /\ got = <<Plain(One(kind, n, sp)),
                              [op |-> "tamper", conf |-> <<>>, how |-> f, way |-> way], z>>
                   /\ Gen(got)
         /\ data = 0 /\ out = 0 /\ newData = 0 /\ newOut = 0 /\ run = 0 /\ conf = 0
         /\ pc = 0 /\ poss = 0
===============================================================================
