import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None):
    a={"files":["src/pymars/"+f for f in files],"mechanism":[{"name":m,"where":"src/pymars/"+files[0]} for m in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Removing species keeps exactly the unaffected rest of the model",
"Removing a set of species from a model yields a model whose species are the remaining ones in their original order, and whose reactions are exactly those that neither mention a removed species as reactant, product or in explicit reaction orders nor lose all of their explicit colliders, in their original order and with unchanged rate parameters, orders, duplicate flags (of reactions whose duplicate remains) and reversibility. Removed species disappear from third-body efficiencies while all other efficiencies (including the default) stay the same; thermodynamic data, transport model, and the temperature and pressure of the model are carried over. Names that are not in the model have no effect, and removing species one at a time gives the same model as removing them together.",
["inputs","programs"],"Every kinetic model (elementary, third-body, explicit-collider, falloff, pressure-dependent, duplicate reactions, any phase of a multi-phase file) and every set of names to remove.",
"The tests compare species and reaction counts for six removals from two mechanisms; whether an efficiency, collider, falloff body, or duplicate of an untested mechanism is treated correctly depends on the model.",
["reduce_model.py","soln2yaml.py"],["the filter over species and reactions in trim","rebuilding the solution from the kept objects"],"return value of trim and the file written from it")
p("C02","Targets, retained and initial-mixture species are never removed",
"Every candidate model evaluated and every model returned or written by a DRG, DRGEP or PFA reduction, with or without a following sensitivity analysis, contains all target species, all retained species, and all fuel, oxidizer and reactant species of the input conditions. This holds for every threshold, error limit, upper threshold and sensitivity-analysis algorithm, including limits so loose that everything else is removed.",
["inputs","configurations","histories"],"All models, sampled states, error responses, limits, methods and sensitivity-analysis settings.",
"Tests run three gri30 reductions with tight limits, in which protected species are important anyway and are never candidates for removal.",
["drg.py","drgep.py","pfa.py","sensitivity_analysis.py","pymars.py"],["species_safe in each reduction","automatic retention of mixture species in parse_inputs","filter of the limbo list in run_sa"],"species of every model handed to a simulation, and of the returned model")
p("C03","A reduction returns a model within the error limit or fails explicitly",
"If a reduction (graph-based, sensitivity analysis, or both) returns a model, then re-evaluating that very model on the given conditions gives the reported error, and this error does not exceed the limit (for sensitivity analysis: unless it already started above it). If no acceptable model is found the reduction stops with an explicit failure, and it never ends with a model it has not evaluated.",
["inputs","histories"],"All models, error responses (including non-monotonic ones, errors equal to the limit, and failing candidates) and limits.",
"The tests check one limit and one mechanism; a wrong comparison or a stale or mismatched final model shows only for particular error responses.",
["drg.py","drgep.py","pfa.py","sensitivity_analysis.py","sampling.py"],["loop condition on the current error","re-reduction at the last accepted threshold","calculate_error"],"returned model, reported error, and the metrics of every evaluated model")
p("C04","DRG and PFA keep exactly the species reachable from the targets",
"At a given threshold, DRG and PFA keep exactly the species that, in at least one sampled state, can be reached from a target through a chain of interactions each with coefficient at or above the threshold, plus the targets and retained species. All sampled states and all targets count, and no other species is kept.",
["inputs"],"All coefficient matrices (cycles, ties with the threshold, zero rows, unreachable parts), all numbers of sampled states and targets, all thresholds.",
"Tests use a handful of 3-5 node graphs with one state; reachability over unions of states, ties and cycles is combinatorial.",
["drg.py","pfa.py"],["trim_drg / trim_pfa","graph_search","union over matrices in reduce_drg / reduce_pfa"],"species of the reduced model; return value of the graph trimming functions")
p("C05","DRGEP importance is the best path product over all states and targets",
"The importance DRGEP assigns to a species is the maximum, over all sampled states and all targets, of the largest product of direct interaction coefficients along any path from the target to the species; targets have importance 1 and unreachable species 0. DRGEP removes exactly the species with importance below the threshold that are not protected.",
["inputs"],"All weighted graphs with coefficients in [0, 1] (including cycles, ties and multi-hop paths that beat direct edges), several states and several targets.",
"The tests use a few small graphs; an error in the modified shortest-path search shows only where a later, longer path improves an already visited node.",
["drgep.py"],["mod_dijkstra","graph_search_drgep","get_importance_coeffs","threshold comparison in reduce_drgep"],"returned importance coefficients; species of the reduced model")
p("C06","Interaction coefficients follow the DRG, DRGEP and PFA definitions",
"For every thermochemical state, the matrix computed for a pair (A, B) equals the published definition: for DRG the share of the absolute rates of A from reactions in which B takes part; for DRGEP the absolute net rate of A from those reactions over the larger of total production and consumption of A; for PFA the sum of first- and second-generation production and consumption fluxes on that same scale. Net rates of progress include the reverse direction, participation means being a reactant or product of the reaction, species without any rate get zero coefficients, and the diagonal is zero.",
["inputs","programs"],"All models and all states (any temperature, pressure and composition; zero net rates; inert, catalytic and reversible cases).",
"Tests compare a few hand-computed matrices of one artificial mechanism; sign, catalytic, reversible and zero-rate cases are left open.",
["drg.py","drgep.py","pfa.py"],["create_drg_matrix","create_drgep_matrix","create_pfa_matrix"],"returned adjacency matrices")
p("C07","The threshold search is complete, terminates, and returns its last good model",
"A graph-based reduction evaluates thresholds 0.01, 0.02, 0.03, ... in this order until a candidate exceeds the error limit, and returns the model of the last threshold whose error was within the limit. If already the first candidate is unacceptable the starting threshold and step are divided by ten, repeatedly, until a candidate is acceptable or the threshold gets as small as 1e-5 (DRG, PFA) or below 1e-6 (DRGEP), in which case it stops with an explicit failure. The search always terminates, also when the limit is never exceeded, in which case it ends with only the protected species.",
["inputs","histories"],"All coefficient landscapes and error responses (including non-monotonic ones and errors equal to the limit).",
"The tests exercise one response per method; refinement, failure, going back a step, and never exceeding the limit are never reached.",
["drg.py","drgep.py","pfa.py"],["while loop on the error","first-iteration refinement","return to the accepted threshold"],"sequence of evaluated models; returned model or failure")
p("C08","Sensitivity analysis removes limbo species in the documented order",
"Sensitivity analysis considers only the given limbo species (all, if none are given) that are not protected; it evaluates the error of removing each of them, repeatedly removes the one whose induced error is closest to the current error, and stops before the first removal that exceeds the limit. The initial algorithm evaluates the induced errors once; the greedy algorithm evaluates those of the remaining species again after each removal and stops as soon as all exceed the limit. It ends normally when no limbo species are left, and returns the model after the last accepted removal together with its error.",
["inputs","histories"],"All error responses over species subsets (ties, exact limits, failing candidates, non-additive errors), limbo lists, starting errors and both algorithms.",
"One gri30 case for both algorithms, which end in the same model; removal order, exhaustion and rejection depend on the error response.",
["sensitivity_analysis.py"],["evaluate_species_errors","argmin over differences to the current error","loop and break conditions in run_sa"],"sequence of evaluated models; returned model")
p("C09","Limbo species are those between the two thresholds",
"After a graph-based reduction with an upper threshold, the species handed to sensitivity analysis are exactly those remaining in the reduced model that the upper threshold would remove (DRG and PFA: not reachable at the upper threshold in any sampled state; DRGEP: importance below the upper threshold), without targets and retained species. They depend only on the run at hand, and without an upper threshold there are none.",
["inputs","configurations","histories"],"All coefficient landscapes, thresholds, methods, and sequences of runs in one process.",
"Only one function-level test of the set reached at the upper threshold; what a complete run hands on is untested.",
["drg.py","drgep.py","pfa.py","pymars.py"],["limbo species at the end of each run function","hand-over to run_sa in main"],"limbo species of the returned model; species tried by the sensitivity analysis")
p("C10","Saved samples are reused exactly when they match, and survive crashes",
"Sampling reuses saved data of a kind of simulation exactly when both of its files are present and match the number of cases (rows and metrics) and the number of species; otherwise it simulates all cases and saves the new samples, so that following runs reuse them. Reused values equal the saved ones bit for bit, the kinds do not affect each other, and sensitivity analysis takes saved metrics only if present in the right number. A run ended at any point leaves files that a later run either reuses with correct contents or discards, never a mixture of two runs and never a crash.",
["histories","crash_points","configurations"],"All sequences of runs with changing case numbers, models and simulation kinds, and all points at which a run can be killed while saving.",
"Tests do one save-and-reuse round per kind; histories with changing configurations and interrupted writes are not reachable by them.",
["sampling.py"],["matches_number / matches_shape tests in sample","_save_samples","reuse_saved branch in sample_metrics"],"metrics and data returned by sampling; number of simulations started; files in the working directory",
[("data_files","names of the saved files","src/pymars/sampling.py")])
p("C11","Results do not depend on the number of workers or completion order",
"For every number of worker processes (one, several, more than there are cases, or zero meaning all cores but one), every completion order and every number of cases, sampling and evaluation return the same metrics and sampled data: each case is simulated exactly once, metrics are ordered ignition, then PSR, then flame, in input order within each kind, with the sampled states in the same order. A case that fails in a worker has the same effect as when run serially.",
["schedules","configurations"],"All worker counts, completion orders, numbers of cases (10 and more included) and mixes of simulation kinds.",
"Tests compare serial to two workers for two or three cases; completion orders are left to chance.",
["sampling.py"],["_run_workers","_run_sampling_jobs","_run_metric_jobs","resolution of num_threads = 0"],"returned metrics and data")
p("C12","Failing candidates are rejected; a failing starting model halts",
"The error of a candidate is the largest relative deviation, in percent, of any of its metrics from the starting model's, and exactly 100 if any metric of the candidate is zero. A candidate whose simulation fails (integrator failure, no ignition, no flame, no extinction curve) gets zero metrics and so is rejected for every limit below 100% without ending the reduction, whereas the same failure of the starting model ends the reduction with an explicit error and saves no samples of that kind of simulation.",
["inputs","fault_sequences"],"All combinations of failing cases, kinds and positions among any number of cases, for starting and candidate models.",
"Tests fail one case of one kind in isolation; they do not show how a failure at some point of a reduction affects its outcome.",
["sampling.py","simulation.py"],["calculate_error","calculate vs run_case in each simulation class"],"error value; outcome of the reduction; files saved")
p("C13","Input files are validated completely and mixture species are retained",
"An input is accepted only if it names a model and phase that exist, a nonzero error limit, a known method with at least one target (or sensitivity analysis alone), target and retained species present in the model, and at least one condition, each of which has positive temperature and pressure (and a valid kind or positive width), and exactly one of a complete equivalence-ratio mixture or a reactant list, with positive amounts of species present in the model, and no mass basis together with an equivalence ratio. Every other input is rejected with an error before any simulation; accepted values are passed on unchanged, defaults fill omitted ones, and every fuel, oxidizer and reactant species that is not a target is retained. Validating does not modify the caller's input.",
["inputs","configurations"],"All combinations of present, missing and invalid fields in any number of conditions of each kind.",
"Tests delete single keys or set one wrong value; combinations and later cases in a list are not covered.",
["pymars.py","sampling.py"],["assertions in parse_inputs and the three condition parsers","automatic retention loop"],"result or exception of input parsing")
p("C14","Sampled states are the first states to reach each fraction of the rise",
"A simulation contributes twenty sampled states (three for a PSR): the k-th one is the first recorded point whose temperature reaches k/20 of the rise from the initial to the final temperature. Each sample is an actual recorded state, with temperature, pressure and mass fractions of the same point, also when one step crosses several levels, and none is left empty.",
["inputs"],"All temperature profiles from which samples are taken, including coarse steps, overshoot, plateaus and roundoff at the last level.",
"One test uses a fine linear ramp, explicitly chosen so that no step crosses two levels.",
["simulation.py"],["_sample_profile"],"sampled data")
p("C15","Reductions leave the reported model file and no intermediate files",
"The file name reported with a reduced model denotes an existing file in the requested directory that loads as the same model. Intermediate ignition data files are removed after use, candidate files of accepted steps are removed when superseded, temporary sensitivity-analysis models do not remain, and the input model file and unrelated files in the directory are never changed.",
["histories","configurations"],"All outcomes of reductions, output directories (nested, relative, absolute), and numbers of candidates.",
"Tests inspect only in-memory models; no test looks at the files that remain.",
["drg.py","drgep.py","pfa.py","sensitivity_analysis.py","soln2yaml.py","simulation.py"],["removal of superseded candidates","final write in each run function","clean of ignition simulations"],"directory contents after a run; loading the reported file")
p("C16","Converting to Chemkin and back preserves the model",
"Converting a model to Chemkin format and back gives a model with the same elements, species (in order, with composition, thermodynamic and transport data) and reactions (in order, with reactants, products, reversibility, orders, efficiencies, colliders and duplicates) and, at every temperature, pressure and composition, the same rates of progress up to the printed precision. This covers elementary, third-body, falloff and chemically-activated (Lindemann, Troe with three or four parameters, SRI), pressure-dependent and Chebyshev reactions; other reaction types are refused explicitly.",
["programs","inputs"],"All models built from these reaction types, with any orders, parameter counts, equation lengths and parameter magnitudes.",
"The tests only check the names of the converted files and one conversion from Chemkin.",
["soln2ck.py","tools.py"],["build_arrhenius / build_falloff_arrhenius unit factors","keyword lines in write"],"files written by the converter, read back")
p("C17","Model comparison finds every difference and no others",
"Comparing a model with itself, a copy written to and loaded from a file, or a copy with species or (non-duplicate) reactions in another order reports equality. Changing any single composition, thermodynamic or transport value, stoichiometric coefficient, reversibility, order, duplicate flag, reaction type, rate, falloff or pressure-dependent parameter, or third-body efficiency by a non-negligible amount, or adding or removing a species or reaction, reports a difference, with either model given first.",
["programs","inputs"],"All models and all single changes to any of their data.",
"Tests try seven specific changes of one mechanism.",
["tools.py"],["compare_models"],"return value of the comparison")
p("C18","PSR extinction curves end at the fold and sample the burning branch",
"The traced response curve starts on the burning branch at residence times 1 and 0.5 s, consists of steady solutions of the reactor equations with decreasing residence time, and stops at the first turning point; the extinction point is the one of smallest residence time on it. The other two points are those of the burning branch nearest to 0.1 s and nearest to the geometric mean of these two residence times; the metrics are the extinction time and the temperatures at the two other points, in the order mid, near, and the states are sampled in the order extinction, mid, near. Tracing further past the fold does not change the upper branch or the three points, and if no turning point is reached this is reported as failure.",
["inputs","fault_sequences"],"All inlet conditions and step-size histories (rejected steps included), stopping at the fold or marching on.",
"Tests trace methane and hydrogen at a few conditions and compare numbers; selection of points and handling of rejected steps are not separated from them.",
["psr_solver.py","simulation.py"],["turning-point detection by the sign of the tangent","argmin selections","_metrics and process_results"],"returned branch, points and metrics; sequence of corrector calls")
p("C19","Ignition delay is the first time of a 400 K rise, on both evaluation paths",
"The ignition delay is the time of the first integration step at which the temperature is at least 400 K above its initial value, whether or not states are recorded. With an end time, integration continues until it is reached; without, until steady state within the given maximum number of steps (10,000 by default). When evaluating the starting model no ignition, running out of steps, or an integrator failure raises an error, and when evaluating a candidate each of these before ignition gives zero; both use constant pressure or volume and the mixture as requested.",
["inputs","fault_sequences"],"All temperature histories, step sizes, end times, step limits and points of integrator failure.",
"Tests integrate a few real mixtures and inject one failure at the first step; boundary steps and failures at other points are not reachable with real chemistry.",
["simulation.py"],["run_case, calculate and process_results of IgnitionSimulation"],"returned delay or exception; recorded data")
p("C20","Flames at or below the minimum speed count as no flame everywhere",
"A flame solution counts as a flame exactly if the solver succeeds and its speed is above the minimum flame speed, which is 0.05 m/s unless set; the value set by the user applies to every flame simulation of a reduction, for starting and candidate models, graph-based and sensitivity analysis, with one or more workers. No flame raises an error for the starting model and gives a zero speed for a candidate; the metric is the speed at the unburned side, and each flame uses its requested domain width and mixture.",
["inputs","configurations","fault_sequences"],"All solver outcomes (failure, negative, zero, at, just above or below the floor), user settings and stages of a reduction.",
"Tests set the floor for single simulations; whether each stage passes it on is not observed.",
["simulation.py","sampling.py","drg.py","drgep.py","pfa.py","sensitivity_analysis.py","pymars.py"],["_flame_detected","min_flame_speed passed through every function"],"floor of each flame simulation created; returned speed or exception")
p("C21","Repeating a reduction in one process gives the same result",
"The outcome of a reduction or sensitivity analysis (evaluated candidates, returned species, error, limbo species, file) depends only on its arguments and the saved samples, not on previous reductions in the same process, the order of target and retained species lists, or hash randomization. The functions leave their list, dictionary and array arguments unchanged.",
["histories"],"All sequences of reductions with any methods in one process, all permutations of target and retained species.",
"Each test runs one reduction in isolation, so leakage between runs cannot appear.",
["drg.py","drgep.py","pfa.py","sensitivity_analysis.py","reduce_model.py","pymars.py"],["ReducedModel defaults","copies of argument lists","sets turned into ordered lists"],"results of repeated calls; arguments after the call")
p("C22","Chemkin models and all settings reach the reduction from the command line",
"A reduction started from the command line runs with exactly the values of the input file and the command-line options (output directory, number of processes), and a Chemkin model named in the input file is first converted and then reduced. A graph-based method followed by sensitivity analysis starts from the reduced model, its error and its limbo species; sensitivity analysis alone starts from the given model with error zero.",
["configurations","inputs"],"All combinations of methods, optional settings, model formats and command-line options.",
"No test runs the command line or the driver with a Chemkin model; settings dropped on the way are invisible to function-level tests.",
["pymars.py","__main__.py","tools.py"],["pymars","main","convert"],"arguments with which the stages run; the final model")
import sys
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
