From 683f732cdc12ac999ebf4d366070c83296a58c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 01/37] fix: sample profiles without leaving unset (all-zero)
 rows

A step crossing several temperature levels left trailing rows unset, and
roundoff could place the last level above the final temperature.
---
 src/pymars/simulation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..474b134 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -123,13 +123,16 @@ class BaseSimulation(ABC):
 
         sampled_data = np.zeros((len(deltas), 2 + n_species))
 
+        # Levels are capped at the final temperature, so that roundoff cannot push the
+        # last level above a temperature that the profile actually reaches.
+        levels = np.minimum(
+            temperature_initial + deltas * temperature_diff, temperatures[-1]
+        )
+
         idx = 0
         for point in range(len(temperatures)):
-            if idx >= len(deltas):
-                break
-            if temperatures[point] >= temperature_initial + (
-                deltas[idx] * temperature_diff
-            ):
+            # a single step may cross more than one level
+            while idx < len(deltas) and temperatures[point] >= levels[idx]:
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
                 sampled_data[idx, 2:] = mass_fractions[point]
                 idx += 1
-- 
2.43.0


From 13857f2a3885c48cdab2af67310784ae4448446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 02/37] fix: do not reuse metrics in sample_metrics when none
 were saved

With reuse_saved and no saved output file, the zero-filled placeholder arrays
were returned as the baseline autoignition and flame metrics.
---
 src/pymars/sampling.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..7185e17 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -414,7 +414,11 @@ def sample_metrics(
                 np.genfromtxt(data_files["output_ignition"], delimiter=",")
             )
 
-        if reuse_saved and len(ignition_delays) == len(ignition_conditions):
+        if (
+            reuse_saved
+            and exists_output
+            and len(ignition_delays) == len(ignition_conditions)
+        ):
             logging.info(
                 "Reusing existing autoignition samples for the starting model."
             )
@@ -473,7 +477,11 @@ def sample_metrics(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
 
-        if reuse_saved and len(flame_speeds) == len(flame_conditions):
+        if (
+            reuse_saved
+            and exists_output
+            and len(flame_speeds) == len(flame_conditions)
+        ):
             logging.info(
                 "Reusing existing laminar flame samples for the starting model."
             )
-- 
2.43.0


From 22f284914a227f04c5716a0c7c38f3dd1ff7fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:13 +0000
Subject: [PATCH 03/37] fix: save sampled data and metrics so an interrupted
 save is never reused

A run ended between (or during) the two writes left new sampled data next to
stale or truncated metrics, which a later run reused or crashed on.
---
 src/pymars/sampling.py | 49 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 7185e17..db77420 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -355,6 +355,31 @@ def read_metrics(ignition_conditions, psr_conditions=[], flame_conditions=[]):
     return np.concatenate(metrics) if metrics else np.array([])
 
 
+def _save_samples(data_file, data, output_file, metrics):
+    """Save sampled data and metrics so that an interrupted save is never reused.
+
+    Both files must be present to be reused, so the previous metrics are removed
+    before the data are replaced, and each file only appears once complete.
+
+    Parameters
+    ----------
+    data_file : str
+        Filename for sampled data
+    data : numpy.ndarray
+        Sampled-state rows
+    output_file : str
+        Filename for metrics
+    metrics : numpy.ndarray
+        Global metrics
+
+    """
+    if os.path.isfile(output_file):
+        os.remove(output_file)
+    for filename, values in ((data_file, data), (output_file, metrics)):
+        np.savetxt(filename + ".tmp", values, delimiter=",")
+        os.replace(filename + ".tmp", filename)
+
+
 def sample_metrics(
     model,
     ignition_conditions,
@@ -602,8 +627,12 @@ def sample(
                 simulations, ignition_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_ignition"], ignition_data, delimiter=",")
-            np.savetxt(data_files["output_ignition"], ignition_delays, delimiter=",")
+            _save_samples(
+                data_files["data_ignition"],
+                ignition_data,
+                data_files["output_ignition"],
+                ignition_delays,
+            )
 
     # PSR cases contribute three metrics each (extinction residence time and the
     # two response temperatures) and ``num_sample_points`` sampled-state rows.
@@ -649,8 +678,12 @@ def sample(
                 simulations, psr_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_psr"], psr_data, delimiter=",")
-            np.savetxt(data_files["output_psr"], psr_metrics, delimiter=",")
+            _save_samples(
+                data_files["data_psr"],
+                psr_data,
+                data_files["output_psr"],
+                psr_metrics,
+            )
 
     flame_speeds = np.array([])
     flame_data = []
@@ -704,8 +737,12 @@ def sample(
                 simulations, flame_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_flame"], flame_data, delimiter=",")
-            np.savetxt(data_files["output_flame"], flame_speeds, delimiter=",")
+            _save_samples(
+                data_files["data_flame"],
+                flame_data,
+                data_files["output_flame"],
+                flame_speeds,
+            )
 
     # combine metrics and sampled data from all phenomena (ignition, PSR, flame)
     metric_arrays = [
-- 
2.43.0


From ac516473a2be5a218628d7ac7d729364dfd0f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 04/37] fix: greedy sensitivity analysis crashed after removing
 its last species

---
 src/pymars/sensitivity_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..e94d847 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -255,7 +255,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if species_limbo and min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
-- 
2.43.0


From 720b805b8983d9ffce56e981d86c95844dd33389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 05/37] fix: return the path where run_sa wrote the reduced
 model

---
 src/pymars/sensitivity_analysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index e94d847..fbfaa2f 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -261,10 +261,13 @@ def run_sa(
     # Final model; may need to rewrite
     reduced_model = ReducedModel(
         model=current_model.model,
-        filename=f"reduced_{current_model.model.n_species}.yaml",
+        filename=soln2yaml.write(
+            current_model.model,
+            f"reduced_{current_model.model.n_species}.yaml",
+            path=path,
+        ),
         error=current_model.error,
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From 8544a3800e0da1d10eaacc360a3412ce2fa2b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 06/37] fix: sensitivity analysis could remove species that
 must be retained

Species given in both species_limbo and species_safe (e.g., targets found in
limbo by the preceding DRG/DRGEP stage) were considered for removal. The
caller's species_limbo list was also emptied.
---
 src/pymars/sensitivity_analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index fbfaa2f..e1d853e 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -175,10 +175,12 @@ def run_sa(
         path=path,
     )
 
-    if not species_limbo:
-        species_limbo = [
-            sp for sp in current_model.model.species_names if sp not in species_safe
-        ]
+    # never consider species that must be retained, and leave the caller's list as is
+    species_limbo = [
+        sp
+        for sp in (species_limbo or current_model.model.species_names)
+        if sp not in species_safe
+    ]
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
-- 
2.43.0


From 937426a41732a7ec5117fb7ed2152ed0d40dc878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 07/37] fix: DRGEP limbo species leaked into later reductions

They were appended to the default list shared by all ReducedModel objects.
---
 src/pymars/drgep.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..aeb24ca 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -530,9 +530,14 @@ def run_drgep(
         )
 
     if threshold_upper:
-        for sp in reduced_model.model.species_names:
-            if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+        # not appended in place, since the default list is shared by all models
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp
+                for sp in reduced_model.model.species_names
+                if importance_coeffs[sp] < threshold_upper and sp not in species_safe
+            ]
+        )
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
-- 
2.43.0


From bf103e152f71b42b63fa95539dbeace902bff516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 08/37] fix: DRGEP removed target species once the threshold
 passed 1.0

---
 src/pymars/drgep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index aeb24ca..dc71528 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -425,6 +425,9 @@ def run_drgep(
     solution = ct.Solution(model_file, phase_name)
     assert species_targets, "Need to specify at least one target species."
 
+    # targets must always be retained, even for thresholds above their importance (1.0)
+    species_safe = list(species_targets) + list(species_safe)
+
     # first, sample thermochemical data and generate metrics for measuring error
     # (e.g, ignition delays). Also produce adjacency matrices for graphs, which
     # will be used to produce graphs for any threshold value.
-- 
2.43.0


From c4eb40765743b92d584dfb53079da6bbcc7648c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 09/37] fix: return to exactly the last acceptable threshold

Recomputing it by subtraction differs from it by roundoff, so the final model
could differ from the last acceptable one (and exceed the error limit).
---
 src/pymars/drg.py   | 5 ++++-
 src/pymars/drgep.py | 5 ++++-
 src/pymars/pfa.py   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..08035d4 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -357,6 +357,8 @@ def run_drg(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -372,7 +374,8 @@ def run_drg(
         )
 
     if error_current > error_limit:
-        threshold -= 2 * threshold_increment
+        # go back to the last acceptable threshold (exactly, not up to roundoff)
+        threshold = threshold_accepted
         reduced_model = reduce_drg(
             model_file,
             species_targets,
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index dc71528..fac4390 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -497,6 +497,8 @@ def run_drgep(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -512,7 +514,8 @@ def run_drgep(
         )
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
+        # go back to the last acceptable threshold (exactly, not up to roundoff)
+        threshold = threshold_accepted
         reduced_model = reduce_drgep(
             model_file,
             species_safe,
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..e4103aa 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -383,6 +383,8 @@ def run_pfa(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -398,7 +400,8 @@ def run_pfa(
         )
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
+        # go back to the last acceptable threshold (exactly, not up to roundoff)
+        threshold = threshold_accepted
         reduced_model = reduce_pfa(
             model_file,
             species_targets,
-- 
2.43.0


From 5c8f62072dec52488f1ec0a7fb781d2c07d0073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 10/37] fix: graph-based reductions never ended if the error
 limit was not reached

Once only target and retained species were left, and the error was still within
the limit, the threshold kept increasing forever.
---
 src/pymars/drg.py   | 15 +++++++++++++--
 src/pymars/drgep.py | 15 +++++++++++++--
 src/pymars/pfa.py   | 15 +++++++++++++--
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 08035d4..6f25b78 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -373,6 +373,13 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop when only species that must be retained are left
+        if all(
+            sp in species_targets or sp in species_safe
+            for sp in reduced_model.model.species_names
+        ):
+            break
+
     if error_current > error_limit:
         # go back to the last acceptable threshold (exactly, not up to roundoff)
         threshold = threshold_accepted
@@ -393,8 +400,12 @@ def run_drg(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model = reduced_model._replace(
+            filename=soln2yaml.write(
+                reduced_model.model,
+                f"reduced_{reduced_model.model.n_species}.yaml",
+                path=path,
+            )
         )
 
     logging.info(45 * "-")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index fac4390..01600c6 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -513,6 +513,13 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop when only species that must be retained are left
+        if all(
+            sp in species_targets or sp in species_safe
+            for sp in reduced_model.model.species_names
+        ):
+            break
+
     if reduced_model.error > error_limit:
         # go back to the last acceptable threshold (exactly, not up to roundoff)
         threshold = threshold_accepted
@@ -531,8 +538,12 @@ def run_drgep(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model = reduced_model._replace(
+            filename=soln2yaml.write(
+                reduced_model.model,
+                f"reduced_{reduced_model.model.n_species}.yaml",
+                path=path,
+            )
         )
 
     if threshold_upper:
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index e4103aa..db9af26 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -399,6 +399,13 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop when only species that must be retained are left
+        if all(
+            sp in species_targets or sp in species_safe
+            for sp in reduced_model.model.species_names
+        ):
+            break
+
     if reduced_model.error > error_limit:
         # go back to the last acceptable threshold (exactly, not up to roundoff)
         threshold = threshold_accepted
@@ -419,8 +426,12 @@ def run_pfa(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model = reduced_model._replace(
+            filename=soln2yaml.write(
+                reduced_model.model,
+                f"reduced_{reduced_model.model.n_species}.yaml",
+                path=path,
+            )
         )
 
     logging.info(45 * "-")
-- 
2.43.0


From efd8c3b845976832e26a8c6e27cdc87072b6fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 11/37] fix: DRG limbo species were those kept by the upper
 threshold

Limbo species are those that the upper threshold would remove, but that remain
following the DRG reduction; run_drg instead passed the species reached with the
upper threshold (targets included) on to the sensitivity analysis.
---
 src/pymars/drg.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 6f25b78..4e25156 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -408,6 +408,18 @@ def run_drg(
             )
         )
 
+    # limbo species are those remaining that the upper threshold would have removed
+    if threshold_upper:
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp
+                for sp in reduced_model.model.species_names
+                if sp not in reduced_model.limbo_species
+                and sp not in species_targets
+                and sp not in species_safe
+            ]
+        )
+
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
     logging.info(
-- 
2.43.0


From e8b31e3507ddcc87d1468d0df1d77afe49312411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 12/37] fix: the upper threshold had no effect on PFA

It was not passed to run_pfa, where the limbo species also always came out empty
(and used the last sampled state only), so every species was considered.
---
 src/pymars/pfa.py    | 10 ++++++----
 src/pymars/pymars.py |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index db9af26..6aa79ae 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -247,13 +247,15 @@ def reduce_pfa(
     # If desired, now identify limbo species for future sensitivity analysis
     limbo_species = []
     if threshold_upper:
-        species_retained += trim_pfa(
-            matrix, solution.species_names, species_targets, threshold_upper
-        )
+        species_upper = []
+        for matrix in matrices:
+            species_upper += trim_pfa(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
         limbo_species = [
             sp
             for sp in solution.species_names
-            if sp not in (species_retained + species_safe + species_removed)
+            if sp not in (species_upper + species_safe + species_removed)
         ]
 
     return ReducedModel(
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..1276fcd 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -255,6 +255,7 @@ def main(
             target_species,
             safe_species,
             phase_name=phase_name,
+            threshold_upper=upper_threshold,
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
-- 
2.43.0


From 8b6d6f8f6f11c968c281cbb8e4cee4e9ab0ac840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 13/37] fix: reducing a Chemkin model from the command line
 always failed

The model was only converted after being loaded as a Cantera file, and the
result was then assigned to an immutable ReductionInputs.
---
 src/pymars/pymars.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 1276fcd..befc644 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -380,12 +380,15 @@ def pymars(argv):
         with open(args.input, "r") as the_file:
             input_dict = yaml.safe_load(the_file)
 
-        inputs = parse_inputs(input_dict)
-
         # Check for Chemkin format and convert if needed
-        if os.path.splitext(inputs.model)[1] not in (".yaml", ".yml"):
+        model = input_dict.get("model", "")
+        if model and os.path.splitext(model)[1] not in (".yaml", ".yml"):
             logging.info("Chemkin file detected; converting before reduction.")
-            inputs.model = convert(inputs.model, args.thermo, args.transport, args.path)
+            input_dict["model"] = convert(
+                model, args.thermo, args.transport, args.path
+            )
+
+        inputs = parse_inputs(input_dict)
 
         main(
             inputs.model,
-- 
2.43.0


From 46d33ecc6d66a58544a43c7a7dc62829e99d9aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 14/37] fix: converting three-parameter Troe reactions to
 Chemkin crashed

---
 src/pymars/soln2ck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index a40128d..5edb942 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -128,10 +128,8 @@ def build_falloff(parameters, falloff_function):
 
     """
     if falloff_function == "Troe":
-        falloff_string = (
-            "TROE / " + f"{parameters[0]}  {parameters[1]}  "
-            f"{parameters[2]}  {parameters[3]} /\n"
-        )
+        # the last Troe parameter (T**) is optional
+        falloff_string = "TROE / " + "  ".join(f"{p}" for p in parameters) + " /\n"
     elif falloff_function == "SRI":
         falloff_string = (
             "SRI / "
-- 
2.43.0


From f5fa962dfc79881db09361d4cda348cd6ecaa28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 15/37] fix: long equations ran into the rate parameters in
 Chemkin files

---
 src/pymars/soln2ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 5edb942..e7d4d86 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -293,7 +293,7 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
-            reaction_string = f"{reaction.equation:<51}"
+            reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
-- 
2.43.0


From f14b713a307c13afa6bc3423b8a522c83fcbf83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 16/37] fix: convert units of Chebyshev rate coefficients in
 Chemkin files

---
 src/pymars/soln2ck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index e7d4d86..5ede05a 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -397,7 +397,10 @@ def write(
                     f"{cheb.pressure_range[1] / ct.one_atm} /\n"
                     + f"CHEB / {cheb.n_temperature}  {cheb.n_pressure} /\n"
                 )
-                for coeffs in cheb.data:
+                # coefficients are for log10(k), with k in mol-cm-s units
+                cheb_data = cheb.data.copy()
+                cheb_data[0, 0] += 3 * (sum(reaction.reactants.values()) - 1)
+                for coeffs in cheb_data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
-- 
2.43.0


From 7c1755a72bb348dd4405e04846b90645385803e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 17/37] fix: keep the rate parameters of converted reactions
 when writing Chemkin files

Three decimals of the temperature exponent and three digits of the falloff
activation energies changed rate constants by up to several percent.
---
 src/pymars/soln2ck.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 5ede05a..0edc554 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -52,9 +52,9 @@ def build_arrhenius(rate, reaction_order, reaction_type):
         raise NotImplementedError("Reaction type not supported: ", reaction_type)
 
     arrhenius = [
-        f"{pre_exponential_factor:.4e}",
-        f"{rate.temperature_exponent:.3f}",
-        f"{(rate.activation_energy / CALORIES_CONSTANT):.2f}",
+        f"{pre_exponential_factor:.7e}",
+        f"{rate.temperature_exponent:.7g}",
+        f"{(rate.activation_energy / CALORIES_CONSTANT):.7e}",
     ]
     return "  ".join(arrhenius)
 
@@ -104,9 +104,9 @@ def build_falloff_arrhenius(rate, reaction_order, reaction_type, pressure_limit)
         raise ValueError("Reaction type not supported: ", reaction_type)
 
     arrhenius = [
-        f"{pre_exponential_factor:.4e}",
-        f"{rate.temperature_exponent:.3f}",
-        f"{(rate.activation_energy / CALORIES_CONSTANT):.3e}",
+        f"{pre_exponential_factor:.7e}",
+        f"{rate.temperature_exponent:.7g}",
+        f"{(rate.activation_energy / CALORIES_CONSTANT):.7e}",
     ]
     return "  ".join(arrhenius)
 
-- 
2.43.0


From f5a41928e9f12269af30c8f87a716608de27f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 18/37] fix: keep explicit reaction orders when writing Chemkin
 files

---
 src/pymars/soln2ck.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 0edc554..6ec4f49 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -293,20 +293,22 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
+            # explicit orders replace the stoichiometric coefficients of the reactants
+            reaction_order = sum({**reaction.reactants, **reaction.orders}.values())
             reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
             if rxn_type in ("Arrhenius", "three-body-Arrhenius"):
                 arrhenius = build_arrhenius(
-                    reaction.rate, sum(reaction.reactants.values()), rxn_type
+                    reaction.rate, reaction_order, rxn_type
                 )
 
             elif rxn_type.startswith("falloff-"):
                 # high-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -315,7 +317,7 @@ def write(
                 # low-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -326,7 +328,7 @@ def write(
             elif rxn_type == "pressure-dependent-Arrhenius":
                 arrhenius = build_arrhenius(
                     reaction.rate.rates[0][1],
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     "pressure-dependent-Arrhenius",
                 )
             else:
@@ -352,7 +354,7 @@ def write(
             if rxn_type.startswith("falloff-"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -367,7 +369,7 @@ def write(
             elif rxn_type.startswith("chemically-activated"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -384,7 +386,7 @@ def write(
                     pressure_str = f"{pressure / ct.one_atm}"
                     arrhenius = build_arrhenius(
                         rate,
-                        sum(reaction.reactants.values()),
+                        reaction_order,
                         "pressure-dependent-Arrhenius",
                     )
                     reaction_string += f"PLOG / {pressure_str} {arrhenius} /\n"
@@ -399,11 +401,14 @@ def write(
                 )
                 # coefficients are for log10(k), with k in mol-cm-s units
                 cheb_data = cheb.data.copy()
-                cheb_data[0, 0] += 3 * (sum(reaction.reactants.values()) - 1)
+                cheb_data[0, 0] += 3 * (reaction_order - 1)
                 for coeffs in cheb_data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
+            for species, order in reaction.orders.items():
+                reaction_string += f"FORD / {species}  {order} /\n"
+
             if reaction.duplicate:
                 reaction_string += "DUPLICATE\n"
 
-- 
2.43.0


From 85f244cf4366fdb428553ed7eb0481dffda7a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 19/37] fix: compare reversibility and explicit orders of
 reactions in compare_models

---
 src/pymars/tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7f244da..dad473c 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -83,6 +83,11 @@ def compare_models(model1, model2):
         if rxn1.duplicate != rxn2.duplicate:
             return False
 
+        if rxn1.reversible != rxn2.reversible:
+            return False
+        if rxn1.orders != rxn2.orders:
+            return False
+
         # Check primary rate object (present on all reactions in Cantera 3)
         if hasattr(rxn1, "rate") and hasattr(rxn2, "rate"):
             rate1, rate2 = rxn1.rate, rxn2.rate
-- 
2.43.0


From 24e6ddd6b471196a316b50e1b7b318d33753c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 20/37] fix: small rate parameters always compared equal in
 compare_models

The default absolute tolerance of numpy.isclose (1e-8) exceeds the
pre-exponential factor of many reactions in SI units.
---
 src/pymars/tools.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index dad473c..68a31a3 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -103,9 +103,13 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0), atol=0.0
+                    ):
                         return False
-                    if not np.isclose(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
+                    if not np.isclose(
+                        getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0), atol=0.0
+                    ):
                         return False
                 # falloff parameters (Troe, SRI, …)
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
@@ -132,7 +136,7 @@ def compare_models(model1, model2):
                         "activation_energy",
                     ):
                         if not np.isclose(
-                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0)
+                            getattr(r1, attr, 0.0), getattr(r2, attr, 0.0), atol=0.0
                         ):
                             return False
 
@@ -153,7 +157,7 @@ def compare_models(model1, model2):
                     "activation_energy",
                 ):
                     if not np.isclose(
-                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
+                        getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
                     ):
                         return False
 
-- 
2.43.0


From d41163eefe0d77cf047c8fc296d76404693993fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 21/37] fix: parse_inputs added species to the caller's
 retained-species list

---
 src/pymars/pymars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index befc644..7832018 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -89,7 +89,7 @@ def parse_inputs(input_dict):
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
 
-    safe_species = input_dict.get("retained-species", [])
+    safe_species = list(input_dict.get("retained-species", []))
 
     phase_name = input_dict.get("phase-name", "")
 
-- 
2.43.0


From 4131b3e4edfaefea46698b831624b95c0e00483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 22/37] fix: DRG and PFA re-evaluated unchanged candidates and
 left their files behind

The number of species reached from the targets was compared with the size of the
previous model, which also contains the retained species; unchanged candidates were
then simulated and written again at every threshold, and their files stayed behind.
---
 src/pymars/drg.py | 8 +++++---
 src/pymars/pfa.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 4e25156..009026c 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -191,15 +191,17 @@ def reduce_drg(
     # want to ensure retained species are the set of those reachable for each state
     species_retained = list(set(species_retained))
 
-    if previous_model and len(species_retained) == previous_model.model.n_species:
-        return previous_model
-
     species_removed = [
         sp
         for sp in solution.species_names
         if sp not in (species_retained + species_safe)
     ]
 
+    # nothing to do if the model is the same as at the previous threshold
+    num_retained = solution.n_species - len(species_removed)
+    if previous_model and num_retained == previous_model.model.n_species:
+        return previous_model
+
     # Cut the exclusion list from the model.
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 6aa79ae..9507fbe 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -215,15 +215,17 @@ def reduce_pfa(
     # want to ensure retained species are the set of those reachable for each state
     species_retained = list(set(species_retained))
 
-    if previous_model and len(species_retained) == previous_model.model.n_species:
-        return previous_model
-
     species_removed = [
         sp
         for sp in solution.species_names
         if sp not in (species_retained + species_safe)
     ]
 
+    # nothing to do if the model is the same as at the previous threshold
+    num_retained = solution.n_species - len(species_removed)
+    if previous_model and num_retained == previous_model.model.n_species:
+        return previous_model
+
     # Cut the exclusion list from the model.
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
-- 
2.43.0


From 0eae3856eaf6c0196c9e0718b18e5e7910dcfc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 23/37] fix: reduced models with emptied third-body
 efficiencies could not be loaded

When all species with third-body efficiencies of a reaction were removed,
the original efficiencies were still written to the reduced model file.
---
 src/pymars/reduce_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 9cd93ba..66cd786 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -64,6 +64,9 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
                     for sp, val in tb.efficiencies.items()
                     if sp in final_species_names
                 }
+                # otherwise the original efficiencies would be written to file
+                if not tb.efficiencies:
+                    reaction.clear_user_data()
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From 081527414d124759757c1590cb603b4ecf7c3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 24/37] fix: reactions were kept without any of their explicit
 colliders

Removing all (several) explicit colliders of a reaction at once kept it, while
removing the same species one after the other removed it.
---
 src/pymars/reduce_model.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 66cd786..d6e5035 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -45,12 +45,9 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
     final_reactions = []
     for reaction in solution.reactions():
         tb = reaction.third_body
-        # remove reactions with an explicit third body that has been removed
-        if tb is not None and not tb.default_efficiency:
-            if (
-                len(tb.efficiencies) == 1
-                and list(tb.efficiencies.keys())[0] in exclusion_list
-            ):
+        # remove reactions whose explicit third bodies have all been removed
+        if tb is not None and not tb.default_efficiency and tb.efficiencies:
+            if all(sp in exclusion_list for sp in tb.efficiencies):
                 continue
 
         reaction_species = list(reaction.products.keys()) + list(
-- 
2.43.0


From a63b2aaad1bd0739ca3a6ff7f8d6591e01920492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 25/37] fix: trim failed for reaction orders of a removed
 species

---
 src/pymars/reduce_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index d6e5035..8c29f40 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -50,8 +50,10 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
             if all(sp in exclusion_list for sp in tb.efficiencies):
                 continue
 
-        reaction_species = list(reaction.products.keys()) + list(
-            reaction.reactants.keys()
+        reaction_species = (
+            list(reaction.products.keys())
+            + list(reaction.reactants.keys())
+            + list(reaction.orders.keys())
         )
         if all([sp in final_species_names for sp in reaction_species]):
             # remove any eliminated species from third-body efficiencies
-- 
2.43.0


From 51a502578162ae7e4ce8fb34bbdd6111509a2008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:28 +0000
Subject: [PATCH 26/37] fix: default third-body efficiencies other than one
 were lost in Chemkin files

---
 src/pymars/soln2ck.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 6ec4f49..91e1a3a 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -344,6 +344,12 @@ def write(
                     for s, v in tb.efficiencies.items()
                     if s in solution.species_names
                 }
+                # Chemkin has no default efficiency other than one
+                if tb.name == "M" and tb.default_efficiency != 1.0:
+                    reduced_efficiencies = {
+                        s: tb.efficiencies.get(s, tb.default_efficiency)
+                        for s in solution.species_names
+                    }
                 efficiencies_str = "  ".join(
                     [f"{s}/{v}/" for s, v in reduced_efficiencies.items()]
                 )
-- 
2.43.0


From 217ba6950165e1734eddb468f657fb1931738b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 27/37] fix: species of more than four elements were unreadable
 in Chemkin files

---
 src/pymars/soln2ck.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 91e1a3a..2735aaa 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -163,6 +163,15 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
             )
+            # more than four elements are listed on a continuation line
+            first_line_end = "1\n"
+            if len(species.composition) > 4:
+                composition_string = ""
+                first_line_end = (
+                    "1&\n"
+                    + " ".join(f"{s} {int(v)}" for s, v in species.composition.items())
+                    + "\n"
+                )
 
             species_string = (
                 f"{species.name:<18}"
@@ -173,7 +182,7 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
                 + f"{species.thermo.max_temp:10.3f}"
                 + f"{species.thermo.coeffs[0]:8.2f}"
                 + 6 * " "
-                + "1\n"
+                + first_line_end
             )
 
             species_string += (
-- 
2.43.0


From 38d0cd86e86568b1fbfee8e13aba1a1b62ea3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:57 +0000
Subject: [PATCH 28/37] fix: refuse thermodynamic data that Chemkin files
 cannot hold

---
 src/pymars/soln2ck.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 2735aaa..1edb035 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -160,6 +160,11 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
         # write data for each species in the Solution object
         for species in species_list:
 
+            if not isinstance(species.thermo, ct.NasaPoly2):
+                raise NotImplementedError(
+                    "Unsupported thermodynamic data for species " + species.name
+                )
+
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
             )
-- 
2.43.0


From 2ea3cad993b68ae158170ceadb602c78badeba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:17 +0000
Subject: [PATCH 29/37] fix: compare_models found differences in copies of
 models loaded from files

---
 src/pymars/tools.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 68a31a3..89e3546 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -11,6 +11,13 @@ from cantera import ck2yaml
 from . import soln2ck
 
 
+def _same_values(values1, values2):
+    """Checks whether two dictionaries of numbers agree, up to roundoff."""
+    return values1.keys() == values2.keys() and all(
+        np.isclose(values1[key], values2[key], atol=0.0) for key in values1
+    )
+
+
 def compare_models(model1, model2):
     """Checks whether two Cantera models are equivalent.
 
@@ -54,15 +61,21 @@ def compare_models(model1, model2):
         if hasattr(sp1, "transport") or hasattr(sp2, "transport"):
             if hasattr(sp1, "transport") and hasattr(sp2, "transport"):
                 # iterate over transport parameters
+                # (``input_data`` repeats them, with notes and units of the file)
                 params = [
                     a
                     for a in dir(sp1.transport)
                     if not a.startswith("__")
+                    and a != "input_data"
                     and not callable(getattr(sp1.transport, a))
                 ]
                 for attr in params:
-                    if getattr(sp1.transport, attr) != getattr(
-                        sp2.transport, attr, 0.0
+                    value1 = getattr(sp1.transport, attr)
+                    value2 = getattr(sp2.transport, attr, 0.0)
+                    if value1 != value2 and (
+                        isinstance(value1, str)
+                        or isinstance(value2, str)
+                        or not np.isclose(value1, value2, atol=0.0)
                     ):
                         return False
             else:
@@ -75,9 +88,9 @@ def compare_models(model1, model2):
         if rxn1.reaction_type != rxn2.reaction_type:
             return False
 
-        if rxn1.reactants != rxn2.reactants:
+        if not _same_values(rxn1.reactants, rxn2.reactants):
             return False
-        if rxn1.products != rxn2.products:
+        if not _same_values(rxn1.products, rxn2.products):
             return False
 
         if rxn1.duplicate != rxn2.duplicate:
@@ -85,7 +98,7 @@ def compare_models(model1, model2):
 
         if rxn1.reversible != rxn2.reversible:
             return False
-        if rxn1.orders != rxn2.orders:
+        if not _same_values(rxn1.orders, rxn2.orders):
             return False
 
         # Check primary rate object (present on all reactions in Cantera 3)
@@ -167,9 +180,11 @@ def compare_models(model1, model2):
         if (tb1 is None) != (tb2 is None):
             return False
         if tb1 is not None and tb2 is not None:
-            if tb1.default_efficiency != tb2.default_efficiency:
+            if not np.isclose(
+                tb1.default_efficiency, tb2.default_efficiency, atol=0.0
+            ):
                 return False
-            if tb1.efficiencies != tb2.efficiencies:
+            if not _same_values(tb1.efficiencies, tb2.efficiencies):
                 return False
 
     return True
-- 
2.43.0


From fbd17e734d6db637c38234369f60d78b2ef25359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:17 +0000
Subject: [PATCH 30/37] fix: compare_models crashed for different numbers of
 rate parameters

---
 src/pymars/tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 89e3546..86af03a 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -128,7 +128,9 @@ def compare_models(model1, model2):
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
                     rate2, "falloff_coeffs"
                 ):
-                    if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
+                    if len(rate1.falloff_coeffs) != len(
+                        rate2.falloff_coeffs
+                    ) or not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
                         return False
 
             # Plog: compare pressure-dependent rate table
@@ -159,7 +161,9 @@ def compare_models(model1, model2):
                     return False
                 if not np.allclose(rate1.temperature_range, rate2.temperature_range):
                     return False
-                if not np.allclose(rate1.data, rate2.data):
+                if rate1.data.shape != rate2.data.shape or not np.allclose(
+                    rate1.data, rate2.data
+                ):
                     return False
 
             # Simple Arrhenius (Arrhenius / three-body-Arrhenius)
-- 
2.43.0


From 4c3d788e1d1a673ef4745ae544c2fa08893b0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:17 +0000
Subject: [PATCH 31/37] fix: compare_models missed differences in some
 temperature ranges

---
 src/pymars/tools.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 86af03a..9c298d9 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -50,7 +50,18 @@ def compare_models(model1, model2):
         if sp1.composition != sp2.composition:
             return False
 
-        for T_ref in (500.0, 1000.0, 2000.0):
+        # the ranges of the data, and values in all parts of them
+        range1 = (sp1.thermo.min_temp, sp1.thermo.max_temp)
+        range2 = (sp2.thermo.min_temp, sp2.thermo.max_temp)
+        if not np.allclose(range1, range2):
+            return False
+        temperatures = [500.0, 1000.0, 2000.0]
+        temperatures += [T for T in range1 if 0.0 < T < np.inf]
+        for thermo in (sp1.thermo, sp2.thermo):
+            if isinstance(thermo, ct.NasaPoly2):
+                temperatures.append(thermo.coeffs[0])
+
+        for T_ref in temperatures:
             if not np.isclose(sp1.thermo.cp(T_ref), sp2.thermo.cp(T_ref), rtol=1e-5):
                 return False
             if not np.isclose(sp1.thermo.h(T_ref), sp2.thermo.h(T_ref), rtol=1e-5):
-- 
2.43.0


From 884bcfc7fac8430324243a25158c958d4f6f4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:17 +0000
Subject: [PATCH 32/37] fix: compare bond energies of reactions in
 compare_models

---
 src/pymars/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 9c298d9..eaa5716 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -177,12 +177,14 @@ def compare_models(model1, model2):
                 ):
                     return False
 
-            # Simple Arrhenius (Arrhenius / three-body-Arrhenius)
+            # Simple Arrhenius (Arrhenius / three-body-Arrhenius) and variants of it
             else:
                 for attr in (
                     "pre_exponential_factor",
                     "temperature_exponent",
                     "activation_energy",
+                    "bond_energy",
+                    "activation_electron_energy",
                 ):
                     if not np.isclose(
                         getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0), atol=0.0
-- 
2.43.0


From 224ac10c2b3c8fde432d1609365c070cc6cee238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 33/37] fix: default third-body efficiencies were lost with the
 last other efficiency

---
 src/pymars/reduce_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 8c29f40..3357318 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -66,6 +66,10 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
                 # otherwise the original efficiencies would be written to file
                 if not tb.efficiencies:
                     reaction.clear_user_data()
+                    if tb.default_efficiency != 1.0:
+                        reaction.update_user_data(
+                            {"default-efficiency": tb.default_efficiency}
+                        )
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From 9416ae2b9d25ae3612699605706ae11e79bc25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 34/37] fix: a saved data file of a single row crashed sampling

---
 src/pymars/sampling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index db77420..d90043c 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -595,7 +595,9 @@ def sample(
             ignition_delays = np.genfromtxt(
                 data_files["output_ignition"], delimiter=","
             )
-            ignition_data = np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            ignition_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = ignition_delays.size == len(
                 ignition_conditions
@@ -651,7 +653,9 @@ def sample(
             psr_metrics = np.atleast_1d(
                 np.genfromtxt(data_files["output_psr"], delimiter=",")
             )
-            psr_data = np.genfromtxt(data_files["data_psr"], delimiter=",")
+            psr_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_psr"], delimiter=",")
+            )
             matches_number = psr_metrics.size == n_psr_metrics and psr_data.shape[
                 0
             ] / n_rows == len(psr_conditions)
@@ -700,7 +704,9 @@ def sample(
             flame_speeds = np.atleast_1d(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
-            flame_data = np.genfromtxt(data_files["data_flame"], delimiter=",")
+            flame_data = np.atleast_2d(
+                np.genfromtxt(data_files["data_flame"], delimiter=",")
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = flame_speeds.size == len(
                 flame_conditions
-- 
2.43.0


From 2072c88726ae3cf016bb51ff27dba703fa6c9b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:15 +0000
Subject: [PATCH 35/37] fix: candidates that never ignite could hang the
 reduction

Without an end time the metric-only integration stepped on past steady
state, where CVODES may never return (h2o2 without H and O).
---
 src/pymars/simulation.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 474b134..3928cc5 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -400,12 +400,31 @@ class IgnitionSimulation(BaseSimulation):
                         f"No ignition detected before end time for ignition case {self.idx}"
                     )
             else:
-                # otherwise, integrate until steady state, or maximum number of steps reached
+                # otherwise, integrate until steady state, or maximum number of steps
+                # reached; stepping on past steady state never ends for some models
+                self.sim.reinitialize()
+                max_state_values = self.sim.get_state()
+                residual_threshold = 10.0 * self.sim.rtol
+                absolute_tolerance = self.sim.atol
+
                 for step in range(self.max_steps):
+                    previous_state = self.sim.get_state()
+
                     self._step()
                     if self.reac.T >= self.properties.temperature + 400.0:
                         self.ignition_delay = self.sim.time
                         break
+
+                    state = self.sim.get_state()
+                    max_state_values = np.maximum(max_state_values, state)
+                    residual = np.linalg.norm(
+                        (state - previous_state)
+                        / (max_state_values + absolute_tolerance)
+                    ) / np.sqrt(self.sim.n_vars)
+
+                    if residual < residual_threshold:
+                        break
+
                 if step == self.max_steps - 1:
                     logging.warning(
                         "Maximum number of steps reached before "
-- 
2.43.0


From f34d0dc8a09418ec35fb4e8adcc15fc3daacbcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:23 +0000
Subject: [PATCH 36/37] fix: a candidate model could be written over the model
 being reduced

An input model named like a candidate in the same directory (for example
reduced_8.yaml) was replaced by, and then removed with, the candidate with that
number of species. Candidates now get another name in this case.
---
 src/pymars/drg.py                  | 13 +++----------
 src/pymars/drgep.py                | 13 +++----------
 src/pymars/pfa.py                  | 13 +++----------
 src/pymars/pymars.py               |  2 ++
 src/pymars/reduce_model.py         | 29 +++++++++++++++++++++++++++++
 src/pymars/sensitivity_analysis.py | 22 ++++++++++++++++------
 6 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 009026c..fb8d720 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -6,9 +6,8 @@ import networkx
 import numpy as np
 import cantera as ct
 
-from . import soln2yaml
 from .sampling import sample, sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, write_reduced, ReducedModel
 
 
 def create_drg_matrix(state, solution):
@@ -206,9 +205,7 @@ def reduce_drg(
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
     )
-    reduced_model_filename = soln2yaml.write(
-        reduced_model, f"reduced_{reduced_model.n_species}.yaml", path=path
-    )
+    reduced_model_filename = write_reduced(reduced_model, model_file, path=path)
 
     reduced_model_metrics = sample_metrics(
         reduced_model_filename,
@@ -403,11 +400,7 @@ def run_drg(
         )
     else:
         reduced_model = reduced_model._replace(
-            filename=soln2yaml.write(
-                reduced_model.model,
-                f"reduced_{reduced_model.model.n_species}.yaml",
-                path=path,
-            )
+            filename=write_reduced(reduced_model.model, model_file, path=path)
         )
 
     # limbo species are those remaining that the upper threshold would have removed
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 01600c6..260f67a 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -9,9 +9,8 @@ import numpy as np
 import networkx
 import cantera as ct
 
-from . import soln2yaml
 from .sampling import sample, sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, write_reduced, ReducedModel
 
 
 def mod_dijkstra(
@@ -351,9 +350,7 @@ def reduce_drgep(
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
     )
-    reduced_model_filename = soln2yaml.write(
-        reduced_model, f"reduced_{reduced_model.n_species}.yaml", path=path
-    )
+    reduced_model_filename = write_reduced(reduced_model, model_file, path=path)
 
     reduced_model_metrics = sample_metrics(
         reduced_model_filename,
@@ -539,11 +536,7 @@ def run_drgep(
         )
     else:
         reduced_model = reduced_model._replace(
-            filename=soln2yaml.write(
-                reduced_model.model,
-                f"reduced_{reduced_model.model.n_species}.yaml",
-                path=path,
-            )
+            filename=write_reduced(reduced_model.model, model_file, path=path)
         )
 
     if threshold_upper:
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 9507fbe..e2bc650 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -6,9 +6,8 @@ import networkx
 import numpy as np
 import cantera as ct
 
-from . import soln2yaml
 from .sampling import sample, sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, write_reduced, ReducedModel
 
 
 def create_pfa_matrix(state, solution):
@@ -230,9 +229,7 @@ def reduce_pfa(
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
     )
-    reduced_model_filename = soln2yaml.write(
-        reduced_model, f"reduced_{reduced_model.n_species}.yaml", path=path
-    )
+    reduced_model_filename = write_reduced(reduced_model, model_file, path=path)
 
     reduced_model_metrics = sample_metrics(
         reduced_model_filename,
@@ -431,11 +428,7 @@ def run_pfa(
         )
     else:
         reduced_model = reduced_model._replace(
-            filename=soln2yaml.write(
-                reduced_model.model,
-                f"reduced_{reduced_model.model.n_species}.yaml",
-                path=path,
-            )
+            filename=write_reduced(reduced_model.model, model_file, path=path)
         )
 
     logging.info(45 * "-")
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 7832018..8953c9a 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -263,6 +263,7 @@ def main(
 
     error = 0.0
     limbo_species = []
+    original_model_file = model_file
     if method in ["DRG", "DRGEP", "PFA"]:
         model_file = reduced_model.filename
         error = reduced_model.error
@@ -286,6 +287,7 @@ def main(
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
+            original_model_file=original_model_file,
         )
 
     return reduced_model
diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 3357318..4bc45c8 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -5,6 +5,8 @@ from typing import NamedTuple
 
 import cantera as ct
 
+from . import soln2yaml
+
 
 class ReducedModel(NamedTuple):
     """Represents reduced model and associated metadata"""
@@ -15,6 +17,33 @@ class ReducedModel(NamedTuple):
     limbo_species: list = []
 
 
+def write_reduced(model, initial_model_file, path=""):
+    """Write reduced model to file, without ever replacing the model being reduced
+
+    Parameters
+    ----------
+    model : cantera.Solution
+        Reduced model to be written
+    initial_model_file : str
+        Filename for initial model being reduced
+    path : str, optional
+        Optional path for writing file
+
+    Returns
+    -------
+    str
+        Name of output model file
+
+    """
+    filename = f"reduced_{model.n_species}.yaml"
+    if os.path.realpath(os.path.join(path, filename)) == os.path.realpath(
+        initial_model_file
+    ):
+        filename = f"reduced_{model.n_species}_new.yaml"
+
+    return soln2yaml.write(model, filename, path=path)
+
+
 def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
     """Function to eliminate species and corresponding reactions from model
 
diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index e1d853e..6214b33 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -1,13 +1,14 @@
 """Module containing sensitivity analysis reduction stage."""
 
 import logging
+import os
 
 import numpy as np
 import cantera as ct
 
 from . import soln2yaml
 from .sampling import sample_metrics, calculate_error
-from .reduce_model import trim, ReducedModel
+from .reduce_model import trim, write_reduced, ReducedModel
 
 # Taken from http://stackoverflow.com/a/22726782/1569494
 try:
@@ -112,6 +113,7 @@ def run_sa(
     num_threads=1,
     path="",
     min_flame_speed=None,
+    original_model_file=None,
 ):
     """Runs a sensitivity analysis to remove species on a given model.
 
@@ -145,6 +147,8 @@ def run_sa(
         use the specified number of threads.
     path : str, optional
         Optional path for writing files
+    original_model_file : str, optional
+        Model that must not be overwritten, if ``model_file`` was reduced from it
 
     Returns
     -------
@@ -261,13 +265,19 @@ def run_sa(
                     break
 
     # Final model; may need to rewrite
+    final_filename = os.path.join(
+        path, f"reduced_{current_model.model.n_species}.yaml"
+    )
+    if current_model.filename != model_file or os.path.realpath(
+        final_filename
+    ) != os.path.realpath(model_file):
+        final_filename = write_reduced(
+            current_model.model, original_model_file or model_file, path=path
+        )
+
     reduced_model = ReducedModel(
         model=current_model.model,
-        filename=soln2yaml.write(
-            current_model.model,
-            f"reduced_{current_model.model.n_species}.yaml",
-            path=path,
-        ),
+        filename=final_filename,
         error=current_model.error,
     )
 
-- 
2.43.0


From 2314054fbc1f02a7b3f5a70ab08075486e6e9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:16 +0000
Subject: [PATCH 37/37] fix: sensitivity analysis alone went on with a starting
 model that fails

---
 src/pymars/sensitivity_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 6214b33..ff58f55 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -178,6 +178,9 @@ def run_sa(
         num_threads=num_threads,
         path=path,
     )
+    # errors are relative to these metrics; zero means that the simulation failed
+    if not np.all(initial_metrics):
+        raise RuntimeError("Simulations failed for the starting model.")
 
     # never consider species that must be retained, and leave the caller's list as is
     species_limbo = [
-- 
2.43.0

