"""Write MANIFEST.json from the checks present and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Assurance: the TLA+ module is checked exhaustively with small constants; the "
          "code is judged by TLC on every generated scenario, so a violation is reported "
          "only for an observed run. Trusted: Cantera, TLC, the stand-ins for simulations "
          "and the projection of observations in harness/. ")
NOTES = {
    "C01": ("TLA+ Trim.tla; trim results judged by TLC", "Generated and real mechanisms, all exclusion lists of the small ones."),
    "C02": ("TLA+ Reduce.tla; recorded reductions judged by TLC", "Synthetic mechanisms with exactly known graphs and error landscapes."),
    "C03": ("TLA+ Reduce.tla; recorded reductions judged by TLC", "As C02, plus re-evaluation of the returned model."),
    "C04": ("TLA+ Graph.tla/Coeff.tla; graph searches and reductions judged by TLC", "Exact dyadic weights with ties at the matrix level, exact rationals at the reduction level."),
    "C05": ("TLA+ Graph.tla (best path product, order-free search); judged by TLC", "Dyadic weights make products exact."),
    "C06": ("TLA+ Coeff.tla exact rationals; matrices judged by TLC", "Integer rates of progress; coefficients compared to 1e-6."),
    "C07": ("TLA+ Reduce.tla threshold machine; recorded reductions judged by TLC", "As C02."),
    "C08": ("TLA+ Reduce.tla sensitivity machine; recorded runs judged by TLC", "As C02; ties are nondeterministic."),
    "C09": ("TLA+ Reduce.tla hand-over; recorded runs judged by TLC", "As C02."),
    "C10": ("TLA+ SampleStore.tla histories and crash points replayed into sampling", "Crashes are process exits before each file-system operation."),
    "C11": ("TLA+ Workers.tla completion orders replayed; results judged by TLC", "Completion orders are forced by gates in the simulations."),
    "C12": ("TLA+ ErrorMetric.tla/Reduce.tla failures; runs judged by TLC", "Dyadic metrics make the error exact."),
    "C13": ("TLA+ Input.tla decision table enumerated by TLC, executed, judged", "All single and many double faults of complete inputs."),
    "C14": ("TLA+ Profile.tla scan; sampled rows judged by TLC", "Profiles avoid exact ties with inner levels."),
    "C15": ("TLA+ Reduce.tla file actions; directories judged by TLC", "As C02."),
    "C16": ("TLA+ Convert.tla shapes; round trips judged by TLC", "Rates compared at several temperatures, pressures and mixtures."),
    "C17": ("TLA+ Compare.tla mutations enumerated by TLC, executed, judged", "Single differences of every field, both argument orders."),
    "C18": ("TLA+ Continuation.tla; traced curves judged by TLC", "Real hydrogen curves and forced corrector failures."),
    "C19": ("TLA+ Ignition.tla machine; scripted integrations judged by TLC", "Integrator scripted; real Cantera runs for mixture and constraint."),
    "C20": ("TLA+ Flame.tla; scripted flames and recorded reductions judged by TLC", "Flame solver scripted."),
    "C21": ("TLA+ Reduce.tla determinism; repeated and permuted runs judged by TLC", "As C02, in one process and under several hash seeds."),
    "C22": ("TLA+ Reduce.tla/Same.tla; command-line runs judged by TLC", "As C02, through the command line, also from Chemkin models; compared with direct calls."),
}
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", f"check_{i.lower()}.py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "technique": NOTES[i][0],
            "level": "model_checking",
            "level_note": COMMON + NOTES[i][1],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
