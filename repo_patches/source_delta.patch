From 98cfcfd2a5523adae3017533fe70cf90de6fcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 01/88] fix: open the match-up files of a list of directories
 in a defined order, leaving other files out

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index a2ee994..d6b5f17 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -182,7 +182,8 @@ class MatchUpReader:
                 dirs_matchup = paths_matchup
                 paths_matchup = []
                 for dir_matchup in dirs_matchup:
-                    paths_matchup += [pjoin(dir_matchup, fname) for fname in listdir(dir_matchup)]
+                    paths_matchup += sorted([pjoin(dir_matchup, fname)
+                                             for fname in listdir(dir_matchup) if fname[-3:] == ".nc"])
             else:
                 return None
 
-- 
2.43.0


From d12ced74f147c71b15a1eb3bf215c81d1a8a1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 02/88] fix: read the systematic uncertainty of a structured
 covariate from the first match-up, which every file has

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index d6b5f17..b12a4d4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -378,7 +378,7 @@ class MatchUpReader:
                         u_matrices[u_matrix_idx] = self._open_u_matrix(dataset, u_j)
 
                         unc[block_idx] = Uncertainty(4, (w_matrix_idx, u_matrix_idx,
-                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][1, i_cov]))
+                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][0, i_cov]))
 
         # Determine separate instances of systematic errors
         sys_indices = []
-- 
2.43.0


From 963fba9c0118e4dbcb8162f9d4dd4c895fafea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 03/88] fix: use the adjustment model the sensor data give

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index b12a4d4..8a7047c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -603,7 +603,7 @@ class MatchUpReader:
         for sensor in idx['sensors']:
             sensor_model.append(sensor_data[sensor]["sensor_model"])
 
-            if "adjustment_model" in sensor_data[sensor].keys():
+            if "sensor_adjustment_model" in sensor_data[sensor].keys():
                 adjustment_model.append(sensor_data[sensor]["sensor_adjustment_model"])
             else:
                 adjustment_model.append(self._default_adjustment_model)
-- 
2.43.0


From 015c35a95e79043a29ab62100187e02386c17f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 04/88] fix: count the match-up series of the summary of a
 dataset

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 5f26966..40fbdd2 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -328,7 +328,7 @@ class MatchUp(object):
 
         string += "Sensors - "+str([str(sensor) for sensor in self.idx['sensors']])
         string += "\nTotal Match-Ups - " + str(self.idx['cNm'][-1])
-        string += "\nMatch-Up Series - " + str(len(self.idx['cNm']))
+        string += "\nMatch-Up Series - " + str(len(self.idx['Nm']))
         string +="\nTotal Match-Ups - "+str(self.idx['cNm'][-1])
         string +="\nTotal Sensor State Data Values - "+str(self.idx['idx'][-1])+"\n"
 
-- 
2.43.0


From f44358d54fdb3165c23a48e79bee253ceff2db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 05/88] fix: lay out the measurands of selected series in the
 order in which they are selected

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index db903d5..2a460f4 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -57,7 +57,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n_mu - 1] for n_mu in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
@@ -188,7 +188,7 @@ def evaluate_adjusted_measurand(MatchUpData, matchup_series=0, return_derivative
         matchup_series = [matchup_series]
 
     # b. Determine idxs of selected measurands
-    selection_Nm = [m for i, m in enumerate(MatchUpData.idx['Nm']) if i+1 in matchup_series]
+    selection_Nm = [MatchUpData.idx['Nm'][n_mu - 1] for n_mu in matchup_series]
     selection_cNm = [0]
     total = 0
     for m in selection_Nm:
-- 
2.43.0


From 35a9e916539e95685cabfecf0f4b3e16b537bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 06/88] fix: return derivatives of measurands without an index
 entry that no reader makes

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index 2a460f4..4f185c8 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -72,13 +72,7 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
     measurand = zeros((selection_cNm[-1], 2), dtype=float32)
     measurand_derivatives = None
     if return_derivatives:
-        measurand_derivatives = [[zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[0]]+MatchUpData.idx['sensor_a'][Im[0]]),
-                                        dtype=float32),
-                                  zeros((selection_cNm[-1],
-                                         MatchUpData.idx['sensor_ms'][Im[1]]+MatchUpData.idx['sensor_a'][Im[1]]),
-                                        dtype=float32)]
-                                  for Im in MatchUpData.idx['Im']]
+        measurand_derivatives = [[None, None] for Im in MatchUpData.idx['Im']]
 
     u_measurand = None
     if parameter_covariance_matrix is not None:
-- 
2.43.0


From 7390be8dc8c69c3974f940a0228e91d2525750b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 07/88] fix: return the uncertainty of measurands given the
 parameter covariance, also together with derivatives

---
 .../core/matchup/matchupToolbox/utils/matchup_maths.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
index 4f185c8..26eb284 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/utils/matchup_maths.py
@@ -129,20 +129,20 @@ def evaluate_measurand(MatchUpData, matchup_series=0, sensor_name=0, return_deri
                     loc_a = array([True if s == sensor_name else False for s in MatchUpData.idx['parameter_sensor']])
                     loc_a_arr = outer(loc_a.T, loc_a)
                     V = parameter_covariance_matrix[loc_a_arr]
-                    V = V.reshape((len(V)**0.5, len(V)**0.5))
+                    V = V.reshape((sum(loc_a), sum(loc_a)))
 
                     u_measurand[i_start_m:i_end_m, i_sensor_pair] = (diag(J[:, m:].dot(V).dot(J[:, m:].T))) ** 0.5
 
                     pass
 
-    if return_derivatives:
-        return measurand, measurand_derivatives
-
     if u_measurand is not None:
         if return_derivatives:
             return measurand, measurand_derivatives, u_measurand
         return measurand, u_measurand
 
+    if return_derivatives:
+        return measurand, measurand_derivatives
+
     return measurand
 
 
-- 
2.43.0


From 40d88dc5ff654cabef820b10091cd690ea2b39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 08/88] fix: draw random match-ups from a sequence, as
 random.sample needs one

---
 .../core/matchup/matchupProcessing/sample2ind/Sample2Ind.py   | 4 ++--
 .../matchupProcessing/sample2ind/cython_lib_sample2ind.pyx    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
index ade2f5c..4aa83ab 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
@@ -104,12 +104,12 @@ class Sample2Ind:
 
                 # If more match ups sampled than maximum randomly reduce to required amount
                 if len(idxs) > mu_samples:
-                    idxs = sorted(sample(idxs, mu_samples))
+                    idxs = sorted(sample(list(idxs), mu_samples))
             # ----------------------------------------------------------------------------------------------------------
 
             # b. If no w matrices present free to sample randomly ------------------------------------------------------
             else:
-                idxs = sorted(sample(arange(mu_total), mu_samples))
+                idxs = sorted(sample(list(arange(mu_total)), mu_samples))
             # ----------------------------------------------------------------------------------------------------------
 
             sampling_idxs[n_mu] = idxs       # add match up sample indices to dictionary
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
index b1ba4d5..2e9986a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/cython_lib_sample2ind.pyx
@@ -56,5 +56,5 @@ def get_sample_idxs(int[:] w_indices_mu, int mu_samples, list w_matrices):
 
     # If more match ups sampled than maximum randomly reduce to required amount
     if len(idxs) > mu_samples:
-        return sample(idxs, mu_samples)
+        return sample(list(idxs), mu_samples)
     return idxs
\ No newline at end of file
-- 
2.43.0


From 7e5dffde2c0b3342e6f09f24657db51d64ce6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 09/88] fix: sample datasets that have no times, which are
 optional as the pixel indices are

---
 .../matchupProcessing/sample2ind/Sample2Ind.py    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
index 4aa83ab..ad6769a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
@@ -220,8 +220,12 @@ class Sample2Ind:
         # Initialise data arrays
         MatchUpSample.ks = zeros(MatchUpSample.idx['cNm'][-1])
         MatchUpSample.unck = [0] * len(MatchUpSample.idx['Nm'])
-        MatchUpSample.time1 = zeros(MatchUpSample.idx['cNm'][-1], dtype=datetime)
-        MatchUpSample.time2 = zeros(MatchUpSample.idx['cNm'][-1], dtype=datetime)
+
+        if MatchUpData.time1 is not None:
+            MatchUpSample.time1 = zeros(MatchUpSample.idx['cNm'][-1], dtype=datetime)
+
+        if MatchUpData.time2 is not None:
+            MatchUpSample.time2 = zeros(MatchUpSample.idx['cNm'][-1], dtype=datetime)
 
         if MatchUpData.across_track_index1 is not None:
             MatchUpSample.across_track_index1 = zeros(MatchUpSample.idx['cNm'][-1])
@@ -263,8 +267,11 @@ class Sample2Ind:
                 MatchUpSample.along_track_index2[istart_s:iend_s] = MatchUpData.along_track_index2[istart:iend][s_idx]
 
             # iv. Sample time
-            MatchUpSample.time1[istart_s:iend_s] = MatchUpData.time1[istart:iend][s_idx]
-            MatchUpSample.time2[istart_s:iend_s] = MatchUpData.time2[istart:iend][s_idx]
+            if MatchUpData.time1 is not None:
+                MatchUpSample.time1[istart_s:iend_s] = MatchUpData.time1[istart:iend][s_idx]
+
+            if MatchUpData.time2 is not None:
+                MatchUpSample.time2[istart_s:iend_s] = MatchUpData.time2[istart:iend][s_idx]
 
         # --------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From a0fa92ee0447eaaab0d41ce32b15e11baed76b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 10/88] fix: keep the match-up times when a dataset is
 transformed and when it is transformed back

---
 .../matchupProcessing/transform2normind/Transform2NormInd.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 01b89f2..94214f7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -127,6 +127,8 @@ class Transform2NormInd:
         MatchUpNormInd.unck = MatchUpData.unck
         MatchUpNormInd.w_matrices = MatchUpData.w_matrices
         MatchUpNormInd.u_matrices = MatchUpData.u_matrices
+        MatchUpNormInd.time1 = MatchUpData.time1
+        MatchUpNormInd.time2 = MatchUpData.time2
         MatchUpNormInd.across_track_index1 = MatchUpData.across_track_index1
         MatchUpNormInd.across_track_index2 = MatchUpData.across_track_index2
         MatchUpNormInd.along_track_index1 = MatchUpData.along_track_index1
@@ -230,6 +232,8 @@ class Transform2NormInd:
         MatchUpData.unck = MatchUpNormInd.unck
         MatchUpData.w_matrices = MatchUpNormInd.w_matrices
         MatchUpData.u_matrices = MatchUpNormInd.u_matrices
+        MatchUpData.time1 = MatchUpNormInd.time1
+        MatchUpData.time2 = MatchUpNormInd.time2
         MatchUpData.across_track_index1 = MatchUpNormInd.across_track_index1
         MatchUpData.across_track_index2 = MatchUpNormInd.across_track_index2
         MatchUpData.along_track_index1 = MatchUpNormInd.along_track_index1
-- 
2.43.0


From ccd7fa351e82aefe2c7d161bc905ebf7b2b16b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 11/88] fix: call every AVHRR sensor model with the arguments
 that all sensor models are given

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py  | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 2c14007..e8ee8d5 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -106,11 +106,11 @@ def sensor_model_3(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4((sensor_model_variables,
+def sensor_model_4(sensor_model_variables,
                    sensor_model_parameter,
                    sensor_model_constant,
                    sensor_model_across_track_index,
-                   sensor_model_along_track_index, time)):
+                   sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -167,7 +167,11 @@ def sensor_model_4((sensor_model_variables,
     return R, J
 
 
-def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -218,7 +222,11 @@ def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_mod
     return R, J
 
 
-def sensor_model_37_3(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -329,7 +337,11 @@ def sensor_model_3_scaled(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_4_scaled(sensor_model_variables,
+                          sensor_model_parameter,
+                          sensor_model_constant,
+                          sensor_model_across_track_index,
+                          sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -386,7 +398,11 @@ def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor
     return R, J
 
 
-def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -437,7 +453,11 @@ def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sen
     return R, J
 
 
-def sensor_model_37_3_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
-- 
2.43.0


From d5c6256a092cbf3469599f12dca66162d5a0d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 12/88] fix: give the AVHRR 3.7um sensors as many parameters as
 their sensor models have

---
 .../sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py | 2 +-
 .../sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
index c622a6d..085ccba 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
index 4b44b0a..432468c 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
index 702fae5..1890bf3 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
index ff21f17..3acb519 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
-- 
2.43.0


From 786c7cf75de7718b062526481ae7e974d975b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 13/88] fix: do not rescale the parameter of the AVHRR 3.7um
 model that is not the rescaled one

---
 .../harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index e8ee8d5..5f1fbd4 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -201,7 +201,7 @@ def sensor_model_37_2(sensor_model_variables,
 
     # Evaluate radiance using sensor model
     Ja = vstack((ones(m), Rict * (Cs - Ce) / (Cs - Cict))).T
-    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]/1000.0]
+    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]]
     R = dot(Ja, at)
 
     # Evaluate derivatives
-- 
2.43.0


From 88dffc5abb7aa8773730b3f91860f6e0a693864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 14/88] fix: derivatives of the rescaled AVHRR sensor models by
 the parameters as they are given

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 5f1fbd4..9f159b8 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -332,7 +332,7 @@ def sensor_model_3_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0e-3, 1.0e-6]))
 
     return R, J
 
@@ -393,7 +393,7 @@ def sensor_model_4_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[3] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0e-3, 1.0e-6, 1.0e-3]))
 
     return R, J
 
@@ -448,7 +448,7 @@ def sensor_model_37_2_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0e-3]))
 
     return R, J
 
@@ -507,7 +507,7 @@ def sensor_model_37_3_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[2] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0e-3, 1.0e-3]))
 
     return R, J
 
-- 
2.43.0


From 5dd5eeae52d643a09b475e47082aebe386748f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 15/88] fix: the measurand of a HIRS reference is its first
 covariate, not its first match-up

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index 26c8a5d..c0987bb 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -59,7 +59,7 @@ def sensor_model_ref(sensor_model_variables, sensor_model_parameter, sensor_mode
         Measurement model derivatives w.r.t. input quantities
     """
 
-    R = sensor_model_variables[0]
+    R = sensor_model_variables[:, 0]
 
     return R, None
 
-- 
2.43.0


From fa16e4dae14ed85bf7e62d6e7ab1d05cd3db8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 16/88] fix: derivative of the HIRS measurand by the
 temperature of the calibration target

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index c0987bb..a35fd2d 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -123,7 +123,7 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
                       -at[1] * Rict * (Ce - Cs) / (Cict - Cs) ** 2 - at[2] * (Ce - Cs),
                       at[1] * Rict / (Cict - Cs) + at[2] * (2 * Ce - Cs - Cict),
                       (at[1] * (Ce - Cs) / (Cict - Cs)) *
-                      Rict * planck_exp / (planck_exp-1.0) * (2.0*H*v*b) / (KB*(a+b*Tict)**2.0),
+                      Rict * planck_exp / (planck_exp-1.0) * (H*v*b) / (KB*(a+b*Tict)**2.0),
                       -1.0 * ones(m),
                       Ja))
 
-- 
2.43.0


From a5444556fc18cb77273c1a7255450b51b1c3825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 17/88] fix: harmonise sensors that do not all have the same
 number of covariates

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py      | 3 ++-
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 7e14ac4..284ca18 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -676,7 +676,6 @@ class GNAlgo(object):
         mcxyz = self.HData.idx['idx']                                                 # cumulative variables by block
         N_var = self.HData.idx['idx'][-1]                                             # total variables
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                      # total number of sensors
-        N_cov = self.HData.idx['n_cov'][-1]                                           # total number of covariates
         N_mu_s = len(self.HData.idx['Im'])                                            # total number of match-up series
         n_uS = max([0]+[unc_i.uS_i for unc_i in self.HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
 
@@ -754,6 +753,8 @@ class GNAlgo(object):
 
                 # > if sensor
                 else:
+                    N_cov = self.HData.idx['sensor_ms'][n_sensor]         # total number of covariates of the sensor
+
                     for n_cov in xrange(1, N_cov + 1):
 
                         # i. find variables location of data
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 99011fb..227bddf 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -206,7 +206,6 @@ class PCAlgo:
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # initialise arrays
         JT = zeros((N_mu, N_sensors), dtype=float32)
@@ -261,6 +260,7 @@ class PCAlgo:
                 else:
                     # build covariate by covariate, in a way depending on correlation form
                     # NB: data should be sample in a way that there are no correlations from averaging
+                    N_cov = HData.idx['sensor_ms'][n_sensor]         # total number of covariates of the sensor
                     for n_cov in xrange(1, N_cov + 1):
 
                         # find block uncertainty data
@@ -356,7 +356,6 @@ class PCAlgo:
         N_var = HData.idx['idx'][-1]                                                # total variables
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # update a estimate in xyza
         self.xyza[N_var:N_var + N_a] = a
@@ -403,6 +402,7 @@ class PCAlgo:
 
                 # build Jacobian matrix with respect to calibration parameters
                 if JR is not None:
+                    N_cov = HData.idx['sensor_ms'][n_sensor]
                     i_sensor_p = asarray([i for i, sn in enumerate(HData.idx["parameter_sensor"]) if sn == sensor_name], dtype=int32)
                     N_sensor_p = len(i_sensor_p)
                     Ja[istart:iend, i_sensor_p] = s * outer(JB, ones(N_sensor_p)) * JR[:, N_cov:N_cov+N_sensor_p] / uK[:, None]
-- 
2.43.0


From f44fdfb3aa8eba078f0b38901d6202dd0edeaf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 18/88] fix: evaluate the residuals of the match-ups with their
 times and pixel indices, as their derivatives are

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 284ca18..0ba3317 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -387,6 +387,12 @@ class GNAlgo(object):
         MatchUpEstimate_NormInd.adjustment_model = self.HData.adjustment_model
         MatchUpEstimate_NormInd.values = deepcopy(xyza[:N_var])
         MatchUpEstimate_NormInd.ks = zeros(N_mu, dtype=float32)
+        MatchUpEstimate_NormInd.time1 = self.HData.time1
+        MatchUpEstimate_NormInd.time2 = self.HData.time2
+        MatchUpEstimate_NormInd.across_track_index1 = self.HData.across_track_index1
+        MatchUpEstimate_NormInd.across_track_index2 = self.HData.across_track_index2
+        MatchUpEstimate_NormInd.along_track_index1 = self.HData.along_track_index1
+        MatchUpEstimate_NormInd.along_track_index2 = self.HData.along_track_index2
 
         MatchUpEstimate = self.Transform2NormIndOp.reverse(MatchUpEstimate_NormInd)
         MatchUpEstimate.ks = evaluate_K(MatchUpEstimate)
-- 
2.43.0


From b564f4dce9422cff814e7a427a221efdee4cd769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 19/88] fix: derivatives of the residuals by the errors of a
 reference sensor that are not just random

---
 .../harmonisation_eiv/GN_algo.py              | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 0ba3317..da17944 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -752,10 +752,31 @@ class GNAlgo(object):
                     block_unc = self.HData.unc[im]
 
                     # ii. add products of Jacobian and vector to product vector
-                    if not transpose:
-                        JPx[istart:iend] = JPx[istart:iend] + s * JB * x[ib:ie] * block_unc.uR / uK
-                    elif transpose:
-                        JPx[ib:ie] = JPx[ib:ie] + s * JB * x[istart:iend] * block_unc.uR / uK
+                    # ~ random component
+                    if block_unc.typeID in (1, 2):
+                        us = block_unc.uS if block_unc.typeID == 2 else None
+                        if not transpose:
+                            JPx[istart:iend] = JPx[istart:iend] + s * JB * x[ib:ie] * block_unc.uR / uK
+                        elif transpose:
+                            JPx[ib:ie] = JPx[ib:ie] + s * JB * x[istart:iend] * block_unc.uR / uK
+
+                    # ~ structured component
+                    else:
+                        w = self.HData.w_matrices[block_unc.w_i]
+                        u = self.HData.u_matrices[block_unc.u_i]
+                        us = w.dot(block_unc.uS * ones(len(u), dtype=float32)) if block_unc.typeID == 4 else None
+                        if not transpose:
+                            JPx[istart:iend] = JPx[istart:iend] + s * JB * w.dot(u * x[ib:ie]) / uK
+                        elif transpose:
+                            JPx[ib:ie] = JPx[ib:ie] + s * u * w.T.dot(JB * x[istart:iend] / uK)
+
+                    # ~ systematic component
+                    if us is not None:
+                        isys = self.HData.idx['idx'][-1] - n_uS - 1 + block_unc.uS_i
+                        if not transpose:
+                            JPx[istart:iend] = JPx[istart:iend] + s * JB * x[isys] * us / uK
+                        elif transpose:
+                            JPx[isys] = JPx[isys] + s * dot(JB * us / uK, x[istart:iend])
 
                 # > if sensor
                 else:
-- 
2.43.0


From f5fbe5b0c235007057495c3479f7068982a6e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 20/88] fix: harmonise with sensors that have a sensor model
 but no parameters

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index da17944..cbeafb3 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -852,7 +852,7 @@ class GNAlgo(object):
                                 JPx[isys] = JPx[isys] + s * dot(JB*JR[:, n_cov-1]*w.dot(us)/uK, x[istart:iend])
 
                     # iii. add terms for as
-                    i_sensor_p = asarray([N_var+i for i, sn in enumerate(self.HData.idx["parameter_sensor"]) if sn == sensor_name])
+                    i_sensor_p = asarray([N_var+i for i, sn in enumerate(self.HData.idx["parameter_sensor"]) if sn == sensor_name], dtype=int32)
                     N_sensor_p = len(i_sensor_p)
 
                     if not transpose:
-- 
2.43.0


From 339640cc8a41bcfd53a59b69541fe3d809135c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 21/88] fix: degrees of freedom of the harmonisation, residuals
 less estimated quantities

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index cbeafb3..41122db 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -315,7 +315,7 @@ class GNAlgo(object):
         MatchUpRes.ks = residuals[N_var:]
         MatchUpRes = self.Transform2NormIndOp.reverse(MatchUpRes)
 
-        cost_dof = N_var - N_mu - N_a
+        cost_dof = N_mu - N_a                         # (N_var + N_mu) residuals, (N_var + N_a) estimated quantities
         cost_p_value = 0
 
         # Return fitted systematic errors
-- 
2.43.0


From e91b0129cc9b78845ddfa56871ebf98365bea4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 22/88] fix: give the chi-squared probability of the cost, not
 zero

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 41122db..6c8d7fd 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -20,6 +20,7 @@ import cPickle
 from numpy import zeros, append, ones, dot, outer, hstack, array, eye, inf, asarray, int32, float32, float64, column_stack, count_nonzero, where
 from numpy.linalg import norm, solve, cholesky
 from scipy.sparse.linalg import LinearOperator
+from scipy.stats import chi2
 from math import ceil
 from netCDF4 import Dataset
 from pykrylov_lsmr import LSMRFramework
@@ -316,7 +317,7 @@ class GNAlgo(object):
         MatchUpRes = self.Transform2NormIndOp.reverse(MatchUpRes)
 
         cost_dof = N_mu - N_a                         # (N_var + N_mu) residuals, (N_var + N_a) estimated quantities
-        cost_p_value = 0
+        cost_p_value = chi2.sf(cost, cost_dof) if cost_dof > 0 else 0
 
         # Return fitted systematic errors
         n_uS = max([0] + [unc_i.uS_i for unc_i in self.HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
-- 
2.43.0


From 03e4da9382293456cde6e7538e7013439e29c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 23/88] fix: transform the adjustment factors also when the
 solver state is opened from file

---
 .../harmonisation_eiv/HarmonisationEIV.py              | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 09003bc..d5b1eef 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -115,12 +115,12 @@ class HarmonisationEIV:
         if show != 0:
             print "Computing full solution..."
 
-        if gn_input is None:
-            if show != 0:
-                print " - Transforming to Independent Variables..."
-            # a. reparameterise input data such that output data are independent quantities
-            HData = Transform2NormIndOp.run(HData)
+        if show != 0:
+            print " - Transforming to Independent Variables..."
+        # a. reparameterise input data such that output data are independent quantities
+        HData = Transform2NormIndOp.run(HData)
 
+        if gn_input is None:
             # b. run GN algorithm on modified data
             GNOp = GNAlgo(HData, preconditioner.parameter_covariance_matrix)
         else:
-- 
2.43.0


From 8dfb0c7f3f4ae708d139914ace1bd34f2cdff292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 24/88] fix: save the solver state where --save_gn asks for it

---
 .../harmonisation_eiv/HarmonisationEIV.py                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index d5b1eef..d1f1a81 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -157,6 +157,9 @@ class HarmonisationEIV:
         if save_directory_GNOp is not None:
             GNOp.save(save_directory_GNOp)
 
+        if save_gn is not None:
+            GNOp.save(save_gn)
+
         return HarmonisationOutput
 
 if __name__ == "__main__":
-- 
2.43.0


From fe56dda863bcaceee0eec6be7cd02c29f30a93ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 25/88] fix: save and open results that have no cost
 statistics, as those of the preconditioner

---
 .../harmonisationIO/HarmonisationResult.py           | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index b180d3f..7c0db2e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -279,9 +279,9 @@ class HarmonisationResult:
 
         # 2. Get attributes --------------------------------------------------------------------------------------------
         # a. Open required attributes
-        cost = dataset.cost
-        cost_dof = dataset.cost_dof
-        cost_p_value = dataset.cost_p_value
+        cost = getattr(dataset, "cost", None)
+        cost_dof = getattr(dataset, "cost_dof", None)
+        cost_p_value = getattr(dataset, "cost_p_value", None)
 
         # b. Open additinal attributes
         additional_attributes_keys = [str(attr) for attr in dataset.ncattrs()
@@ -606,9 +606,9 @@ class HarmonisationResult:
         rootgrp = Dataset(path, 'w')
 
         # 2. Set attributes
-        rootgrp.cost = cost
-        rootgrp.cost_dof = cost_dof
-        rootgrp.cost_p_value = cost_p_value
+        for name, value in (("cost", cost), ("cost_dof", cost_dof), ("cost_p_value", cost_p_value)):
+            if value is not None:
+                rootgrp.setncattr(name, value)
         rootgrp.setncatts(additional_attributes)
 
         # 3. Create dimensions
-- 
2.43.0


From ac29ac826cd8a01fa8acad1771c4d04d6da32640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 26/88] fix: open results that have no residual files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 7c0db2e..55b8d8a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -171,9 +171,10 @@ class HarmonisationResult:
 
             if open_residuals:
                 harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir)
-                self.values_res, self.ks_res, \
-                    self.idx, self.additional_attributes \
-                        = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
+                if harmonisation_residual_file_paths is not None:
+                    self.values_res, self.ks_res, \
+                        self.idx, self.additional_attributes \
+                            = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
 
     def _get_harm_output_path(self, output_dir):
         """
-- 
2.43.0


From 1d94f96bb5c7f4279e79f89372d993744d8f560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 27/88] fix: open a result by the path of its file, as the
 preconditioner is given

---
 .../harmonisationIO/HarmonisationResult.py          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 55b8d8a..a48ba93 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -131,7 +131,7 @@ class HarmonisationResult:
         Initialise HarmonisationResult object to store harmonisation output data
 
         :type output_dir: str
-        :param output_dir: path of harmonisation output files' directory
+        :param output_dir: path of harmonisation output files' directory, or of the harmonisation result file itself
 
         :type open_residuals: bool
         :param open_residuals: option for open harmonisation residual files
@@ -189,6 +189,9 @@ class HarmonisationResult:
             Path of harmonisation result file in given directory
         """
 
+        if isfile(output_dir):
+            return output_dir
+
         harm_output_path = None
 
         harm_output_path_rule = re.compile('harm(?:(?!.*res.*).*)\.nc')
@@ -218,11 +221,17 @@ class HarmonisationResult:
         """
 
         harm_res_paths = []
+        harm_res_prefix = ""
+
+        if isfile(output_dir):
+            output_dir, harm_output_fname = split(output_dir)
+            output_dir = output_dir or "."
+            harm_res_prefix = splitext(harm_output_fname)[0] + "_res_"
 
         harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
 
         for f in listdir(output_dir):
-            if harm_res_path_rule.match(f):
+            if harm_res_path_rule.match(f) and f.startswith(harm_res_prefix):
                 harm_res_paths.append(pjoin(output_dir, f))
 
         if not harm_res_paths:
-- 
2.43.0


From 3d3b504a7d16ded7cb20d1f1866000b694f35842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 28/88] fix: write the data residuals to the residual files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index a48ba93..75edc4f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -761,7 +761,7 @@ class HarmonisationResult:
                     X_res_var.description = "X"+str(i_sensor_pair+1)+" harmonisation fitting residuals"
 
                     # Store data
-                    X_res_var = X_res[:]
+                    X_res_var[:] = X_res[:]
 
             # 3. Write ks_res data if available ------------------------------------------------------------------------
 
-- 
2.43.0


From 20b0bac6d027bddf038207e7712717281834c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 29/88] fix: keep the additional attributes of the result file
 when its residual files are opened

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 75edc4f..8fa0dbe 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -173,7 +173,7 @@ class HarmonisationResult:
                 harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir)
                 if harmonisation_residual_file_paths is not None:
                     self.values_res, self.ks_res, \
-                        self.idx, self.additional_attributes \
+                        self.idx, _ \
                             = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
 
     def _get_harm_output_path(self, output_dir):
-- 
2.43.0


From 88e2376ca66e41da71eb929e6ea6c8d19d898d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 30/88] fix: open residual files in a defined order

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 8fa0dbe..b7a83c7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -230,7 +230,7 @@ class HarmonisationResult:
 
         harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
 
-        for f in listdir(output_dir):
+        for f in sorted(listdir(output_dir)):
             if harm_res_path_rule.match(f) and f.startswith(harm_res_prefix):
                 harm_res_paths.append(pjoin(output_dir, f))
 
-- 
2.43.0


From 14943dbd59a3bae5f0247e0cfc0ea49c1a6c92e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 31/88] fix: write names as characters also when strings are
 unicode, and leave the result as it is

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index b7a83c7..e3c4322 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -641,7 +641,7 @@ class HarmonisationResult:
 
         # > Harmonisation parameter sensor name variable
         fmt_str = '{0: <'+str(max_l_name)+'}'
-        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors])
+        parameter_sensors = asarray([fmt_str.format(p) for p in parameter_sensors], dtype='S'+str(max_l_name))
         parameter_sensors_var = rootgrp.createVariable('parameter_sensors', 'S1', ('n', 'l_name'), zlib=True,
                                                        complevel=9)
         parameter_sensors_var.description = "Sensors associated with harmonisation parameters"
@@ -656,12 +656,12 @@ class HarmonisationResult:
 
                 if additional_variables[variable]['dtype'] == 'S1':
                     fmt_str = '{0: <' + str(max_l_name) + '}'
-                    additional_variables[variable]['data'] = asarray([fmt_str.format(s) for s in
-                                                                      additional_variables[variable]['data']])
+                    data = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']],
+                                   dtype='S'+str(max_l_name))
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             (additional_variables[variable]['dim'], 'l_name'),
                                                             zlib=True, complevel=9)
-                    additional_var[:] = stringtochar(additional_variables[variable]['data'][:])
+                    additional_var[:] = stringtochar(data)
                 else:
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             additional_variables[variable]['dim'],
-- 
2.43.0


From e5cbc089de80b0e3ba945d2232acaf0661689677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 32/88] fix: keep the least-squares solution that needs no
 iteration, and stop when the residual is exactly zero

---
 .../harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
index 9d625b0..95fdb0e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_lsmr.py
@@ -285,6 +285,7 @@ class LSMRFramework(KrylovMethod):
         if normar == 0:
             if show:
                 print msg[0]
+            self.x = x
             return x, istop, itn, normr, normar, normA, condA, normx
 
         if show:
@@ -422,7 +423,7 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            test2   = normar/(normA*normr) if normA*normr != 0 else float('inf')
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From 3dc7653b785081f11ff4a3bad63fe58a30944df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 33/88] fix: stop Minres when the first vector is an
 eigenvector, and start its condition estimate with no value

---
 .../harmonisation_eiv/pykrylov_minres.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
index a56d3c0..a2620e5 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/pykrylov_minres.py
@@ -260,8 +260,8 @@ class Minres(KrylovMethod):
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-                    gmax   = abs(alfa)        # alpha1
-                    gmin   = gmax             # alpha1
+                    gmax   = 0.0
+                    gmin   = np.finfo(np.double).max
 
                 # Apply previous rotation Qk-1 to get
                 #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
@@ -378,7 +378,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if (itn % 10)==0: print ' '
 
@@ -392,7 +392,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,1,2,3,4,10]
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From 264ee12a5bb3ebb1bd25459c9fe7618ad6e316fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 34/88] fix: open the residuals of the first sensor as those of
 the others, it may have several covariates

---
 .../harmonisationIO/HarmonisationResult.py    | 43 +++++--------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index e3c4322..cffe49b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -360,11 +360,10 @@ class HarmonisationResult:
 
         # Input residual data is restructured into a 1D array structured in blocks of data in the following way:
         #
-        # values_res = [ Xref_res | X_1_res(1,2) |...| X_1_res(N,S-1) |
-        #                            | X_1_res(L,S) |...| X_m_res(1,2) |...| X_m_res(N,S-1)| X_m_res(L,S) ]
+        # values_res = [ X_1_res(1,1) | X_1_res(1,2) |...| X_1_res(N,S-1) | X_1_res(N,S) |
+        #                          ...| X_m_res(1,2) |...| X_m_res(N,S-1) | X_m_res(N,S) ]
         #
         # where:
-        # - Xref_res - reference sensor measurand fitting residual (if dataset contains reference sensor)
         # - X_m_res - model covariate fitting residual of number m of a total m covariates
         # - (N, s) - covariate indices:
         #            > N - match-up series index of N of a total N match-up series
@@ -452,43 +451,21 @@ class HarmonisationResult:
         # b. determine 1D data block structure definition indices ------------------------------------------------------
 
         if values_res_available:
-            # generate required data
-            full_sensor_list = [num for pair in Im for num in pair]  # full list of sensors (ordered by match-up series)
-            num_ref_matchup = full_sensor_list.count(0)  # number of reference-sensor match-up series
-            sensor_list = [sensor for sensor in full_sensor_list if
-                           sensor != 0]  # list of sensors (excluding reference)
+            # sensor number, match-up series number and covariate number of consecutive data blocks, as match-up data
+            blocks = [(int(sensor), i + 1, m_i) for m_i in range(1, max(sensor_ms) + 1)
+                      for i, pair in enumerate(Im)
+                      for sensor in pair
+                      if sensor_ms[sensor] >= m_i]
 
             # Create New Indices:
             # > n_sensor - list of sensor number of consecuative data blocks
-            n_sensor = [int(0)] * num_ref_matchup + [int(sensor) for m_i in range(1, max(sensor_ms) + 1)
-                                                     for sensor in sensor_list
-                                                     if sensor_ms[sensor] >= m_i]
+            n_sensor = [block[0] for block in blocks]
 
             # > n_mu - list of match-up series number of consecuative data blocks
-            # For reference sensors
-            n_mu_refs = [int(i + 1) for i, pair in enumerate(Im) if 0 in pair]
-
-            # For series sensors
-            n_mu_sensors = [int(i + 1) for m_i in range(1, max(sensor_ms) + 1)
-                            for i, pair in enumerate(Im)
-                            for sensor in pair
-                            if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
-
-            # Combine
-            n_mu = n_mu_refs + n_mu_sensors
+            n_mu = [block[1] for block in blocks]
 
             # > n_cov - list of covariate number of consecuative blocks of data
-            # For reference sensors
-            n_cov_refs = [int(1)] * num_ref_matchup
-
-            # For series sensors
-            n_cov_sensors = [m_i for m_i in range(1, max(sensor_ms) + 1)
-                             for i, pair in enumerate(Im)
-                             for sensor in pair
-                             if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
-
-            # Combine
-            n_cov = n_cov_refs + n_cov_sensors
+            n_cov = [block[2] for block in blocks]
 
             # - N_var - list of total number of variables in consecuative data blocks
             #          (initially number of match-ups before modification)
-- 
2.43.0


From 68fcc4c26f8e0f2de386a922a588f53c328dc4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 35/88] fix: write every match-up series to a residual file of
 its own, also when series are of the same sensors

---
 .../harmonisationIO/HarmonisationResult.py          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index cffe49b..60e1907 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -683,14 +683,23 @@ class HarmonisationResult:
         block_idxs = [(i, j, k) for i, j, k in zip(idx['n_sensor'], idx['n_mu'], idx['n_cov'])]
 
         # Write file per match-up series
+        fnames_res = []
         for i_matchup, n_sensor_pair in enumerate(idx["Im"]):
 
             # 1. Initialise file ---------------------------------------------------------------------------------------
             sensor_name_pair = [idx['sensors'][n_sensor_pair[0]], idx['sensors'][n_sensor_pair[1]]]
 
             # Define filename
-            fname_res = "_".join((output_fname_noext, "res", str(sensor_name_pair[0]), str(sensor_name_pair[1])))\
-                        + output_fname_ext
+            fname_res_noext = "_".join((output_fname_noext, "res",
+                                        str(sensor_name_pair[0]), str(sensor_name_pair[1])))
+            fname_res = fname_res_noext + output_fname_ext
+
+            # Number further match-up series of the same sensors
+            n_same = 1
+            while fname_res in fnames_res:
+                n_same += 1
+                fname_res = fname_res_noext + "_" + str(n_same) + output_fname_ext
+            fnames_res.append(fname_res)
 
             path_res = pjoin(directory, fname_res)
 
-- 
2.43.0


From e52812850855e80fcbf691fe17fb0ff000f57621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 36/88] fix: save results that were opened without data
 residuals

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 60e1907..1b8c802 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -680,7 +680,8 @@ class HarmonisationResult:
         output_fname_noext, output_fname_ext = splitext(output_fname)
 
         # sensor number, match up number and covariate number per data block as a tuple for indexing
-        block_idxs = [(i, j, k) for i, j, k in zip(idx['n_sensor'], idx['n_mu'], idx['n_cov'])]
+        if values_res is not None:
+            block_idxs = [(i, j, k) for i, j, k in zip(idx['n_sensor'], idx['n_mu'], idx['n_cov'])]
 
         # Write file per match-up series
         fnames_res = []
-- 
2.43.0


From 36c6e82a66d1a8415f97499635100af9f7ca0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 37/88] fix: write the additional attributes to the residual
 files as to the result file

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 1b8c802..58c2156 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -708,6 +708,7 @@ class HarmonisationResult:
             dataset = Dataset(path_res, 'w')
 
             # Set attributes
+            dataset.setncatts(additional_attributes)
             dataset.sensor_1_name = sensor_name_pair[0]
             dataset.sensor_2_name = sensor_name_pair[1]
 
-- 
2.43.0


From cfb27b173ab7c36c247cb572a3286bcfce0df865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 38/88] fix: open additional variables as they are saved, so
 that opened results can be saved

---
 .../harmonisationIO/HarmonisationResult.py    | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 58c2156..8884544 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -10,7 +10,7 @@ import re
 
 '''___Third-Party Modules___'''
 from netCDF4 import Dataset, stringtochar, chartostring
-from numpy import zeros, asarray
+from numpy import zeros, asarray, shape
 
 '''___harmonisation Modules___'''
 
@@ -321,7 +321,17 @@ class HarmonisationResult:
                                                                       "parameter_covariance_matrix"]]
 
         for additional_variable_name in additional_variable_names:
-            additional_variables[additional_variable_name] = dataset.variables[additional_variable_name][:]
+            variable = dataset.variables[additional_variable_name]
+            additional_variable = {'data': variable[:], 'dim': variable.dimensions, 'dtype': variable.dtype.str[1:]}
+
+            if additional_variable['dtype'] == 'S1':
+                additional_variable['data'] = [s.strip() for s in list(chartostring(variable[:]))]
+                additional_variable['dim'] = variable.dimensions[:1]
+
+            if "Description" in variable.ncattrs():
+                additional_variable['Description'] = variable.Description
+
+            additional_variables[additional_variable_name] = additional_variable
 
         # --------------------------------------------------------------------------------------------------------------
 
@@ -627,21 +637,23 @@ class HarmonisationResult:
         # > additional variables - non-required variable to add to harmonisation input files
         if additional_variables is not None:
             for variable in additional_variables.keys():
-                for i, dim in enumerate(additional_variables[variable]['dim']):
+                dims = additional_variables[variable]['dim']
+                dims = tuple(dims) if isinstance(dims, (tuple, list)) else (dims,)
+
+                for dim, dim_size in zip(dims, shape(additional_variables[variable]['data'])):
                     if dim not in rootgrp.dimensions.keys():
-                        new_dim = rootgrp.createDimension(dim, len(additional_variables[variable]['data']))
+                        new_dim = rootgrp.createDimension(dim, dim_size)
 
                 if additional_variables[variable]['dtype'] == 'S1':
                     fmt_str = '{0: <' + str(max_l_name) + '}'
                     data = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']],
                                    dtype='S'+str(max_l_name))
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
-                                                            (additional_variables[variable]['dim'], 'l_name'),
+                                                            dims + ('l_name',),
                                                             zlib=True, complevel=9)
                     additional_var[:] = stringtochar(data)
                 else:
-                    additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
-                                                            additional_variables[variable]['dim'],
+                    additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'], dims,
                                                             zlib=True, complevel=9)
                     additional_var[:] = additional_variables[variable]['data'][:]
 
-- 
2.43.0


From 388975cbaf3fb93f0f1d88cfae6f689fb73c45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 39/88] fix: tell result and residual files apart by the suffix
 of residual files, not by any 'res' in their names

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 8884544..0928c61 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -194,7 +194,7 @@ class HarmonisationResult:
 
         harm_output_path = None
 
-        harm_output_path_rule = re.compile('harm(?:(?!.*res.*).*)\.nc')
+        harm_output_path_rule = re.compile(r'harm(?!.*_res_).*\.nc$')
 
         for f in listdir(output_dir):
             if harm_output_path_rule.match(f):
@@ -228,7 +228,7 @@ class HarmonisationResult:
             output_dir = output_dir or "."
             harm_res_prefix = splitext(harm_output_fname)[0] + "_res_"
 
-        harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
+        harm_res_path_rule = re.compile(r'harm.*_res_.*\.nc$')
 
         for f in sorted(listdir(output_dir)):
             if harm_res_path_rule.match(f) and f.startswith(harm_res_prefix):
-- 
2.43.0


From 9d290d449701c78dd21756d00fd04fb001c395dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 40/88] fix: take --quiet and --verbose as they are given, they
 are not None when they are left out

---
 harmonisation_eiv/harmonisation/tools/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/common.py b/harmonisation_eiv/harmonisation/tools/common.py
index 7d4c161..06251a6 100644
--- a/harmonisation_eiv/harmonisation/tools/common.py
+++ b/harmonisation_eiv/harmonisation/tools/common.py
@@ -174,9 +174,9 @@ def configure_logging(fname=None, verbose=False, quiet=False):
 
 def read_parsed_cmdline(parsed_cmdline, solver_options=True):
 
-    if parsed_cmdline.quiet is not None:
+    if parsed_cmdline.quiet:
         show = 0
-    elif parsed_cmdline.verbose is not None:
+    elif parsed_cmdline.verbose:
         show = 2
     else:
         show = 1
-- 
2.43.0


From 12ecb98ab2d10fdcdae9068ecf436446a6742601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 41/88] fix: write the result of runs whose configuration has
 no job id and dataset name, as those of full_eiv_solver

---
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 47ecff9..ee73d28 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -128,17 +128,18 @@ class HarmonisationOp:
         # Add metadata
         startDate = ""
         endDate = ""
+        job_id = software_cfg.get("job_id", "")
+        matchup_dataset = software_cfg.get("matchup_dataset", "")
         HarmonisationOutput.additional_attributes = {"software": software_cfg['software'],
                                                      "software_version": software_cfg['version'],
                                                      "software_tag": software_cfg['tag'],
-                                                     "job_id": software_cfg["job_id"],
-                                                     "matchup_dataset": "_".join((software_cfg['matchup_dataset'],
+                                                     "job_id": job_id,
+                                                     "matchup_dataset": "_".join((matchup_dataset,
                                                                                   startDate, endDate))}
 
         # Write data
         fname_output = "_".join(("harm", software_cfg['software'], software_cfg['version'],
-                                 software_cfg['tag'], software_cfg["job_id"],
-                                 software_cfg['matchup_dataset'])) + ".nc"
+                                 software_cfg['tag'], job_id, matchup_dataset)) + ".nc"
         HarmonisationOutput.save(pjoin(output_dir, fname_output), save_residuals=res)
 
         print "\nOutput Data Written To:"
-- 
2.43.0


From 69662bbc27c81e2b2ecbca8d9c7e30bf8072197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 42/88] fix: make the output directory before the
 harmonisation, rather than fail to write to it afterwards

---
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index ee73d28..0ee4836 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -86,6 +86,9 @@ class HarmonisationOp:
         # Default to save residual data
         res = True
 
+        # Make output directory if it doesn't exist
+        try_makedirs(output_dir)
+
         ################################################################################################################
         # 1.	Read Harmonisation Matchup Data
         ################################################################################################################
-- 
2.43.0


From 3a3a0e1697492609d98d1df114afb610d0e78435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 43/88] fix: do not compute the covariance of the parameters
 when --no_covariance asks for that

---
 .../harmonisation_eiv/HarmonisationEIV.py                      | 3 +--
 harmonisation_eiv/harmonisation/tools/HarmonisationOp.py       | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index d1f1a81..0e8fee8 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -55,7 +55,7 @@ class HarmonisationEIV:
 
     def run(self, HData,
                   pc_input=None, save_pc=None, gn_input=None, save_gn=None, save_directory_GNOp=None,
-                  show=1):
+                  show=1, return_covariance=True):
         """
         Return harmonised parameters and diagnostic data for input harmonisaton match-up data
 
@@ -76,7 +76,6 @@ class HarmonisationEIV:
         # 1.	Compute Approximate Solution to find Pre-conditioner to Full Problem
         ################################################################################################################
 
-        return_covariance = True
         if save_directory_GNOp is not None:
             return_covariance = False
 
diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 0ee4836..3d4810d 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -117,7 +117,8 @@ class HarmonisationOp:
         HarmonisationOutput = Harmonisation.run(HData,
                                                 pc_input=pc_input, save_pc=save_pc,
                                                 gn_input=gn_input, save_gn=save_gn,
-                                                show=show)
+                                                show=show,
+                                                return_covariance=return_covariance)
 
         print "Final Solution:"
         print HarmonisationOutput.parameter
-- 
2.43.0


From 52013b78ec7ac2ec2d8ff5ced996031e3e896e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 44/88] fix: set the sensor data also for the original
 parameterisation, to which estimates are transformed back

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 40fbdd2..4f5f25b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -166,6 +166,10 @@ class MatchUp(object):
         self.a, self.sensor_model_constant, self.sensor_model, \
             self.adjustment_model, self.idx = MatchUpReaderOp.extract_sensor_data(sensor_data, self.idx)
 
+        # the original parameterisation of the data is of the same sensors
+        for key in ("parameter_sensor", "sensor_model_constant_sensor"):
+            self._original_idx[key] = list(self.idx[key])
+
     def getVariableData(self, variable_number, sensor_name, matchup_number):
 
         matchup_numbers = []
-- 
2.43.0


From 6365793811204802330ea480ec84e86b3c7a6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 45/88] fix: place rolling averages by the scanline nearest to
 their times also for short scanline times

---
 tools/generate_w_matrices.py | 3 +--
 tools/pmh2fiduceo.py         | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/tools/generate_w_matrices.py b/tools/generate_w_matrices.py
index 762c68c..da45249 100644
--- a/tools/generate_w_matrices.py
+++ b/tools/generate_w_matrices.py
@@ -79,8 +79,7 @@ def generate_rolling_average_w_matrix(matchup_times, scanline_time, kernel_uncer
     for i in xrange(num_matchups):
         scanline_pos = 0
         if i > 0:
-            rel_time = round(scanline_time*round(float(matchup_times[i]-matchup_times[0])/scanline_time), 2)
-            scanline_pos = int(round(rel_time/scanline_time))
+            scanline_pos = int(round(float(matchup_times[i]-matchup_times[0])/scanline_time))
 
         relative_column_postions.append(int(scanline_pos))
 
diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index fd43966..8ffcae1 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -263,8 +263,7 @@ def generate_rolling_average_w_matrix(matchup_times, scanline_time, kernel_uncer
     for i in range(num_matchups):
         scanline_pos = 0
         if i > 0:
-            rel_time = round(scanline_time*round(float(matchup_times[i]-matchup_times[0])/scanline_time), 2)
-            scanline_pos = int(round(rel_time/scanline_time))
+            scanline_pos = int(round(float(matchup_times[i]-matchup_times[0])/scanline_time))
 
         relative_column_postions.append(int(scanline_pos))
 
-- 
2.43.0


From cd1737e263776acac2f7460c752ee452f2acbec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 46/88] fix: take any scalar for the one uncertainty of all
 scanlines, not only Python floats

---
 tools/generate_w_matrices.py | 4 ++--
 tools/pmh2fiduceo.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/generate_w_matrices.py b/tools/generate_w_matrices.py
index da45249..a0ade46 100644
--- a/tools/generate_w_matrices.py
+++ b/tools/generate_w_matrices.py
@@ -6,7 +6,7 @@ Module with functions to build a W matrix
 
 
 '''___Third Party Modules___'''
-from numpy import zeros, ones, trim_zeros, asarray, arange, unique, int32
+from numpy import zeros, ones, trim_zeros, asarray, arange, unique, int32, isscalar
 from scipy.sparse import csr_matrix
 
 '''___Authorship___'''
@@ -66,7 +66,7 @@ def generate_rolling_average_w_matrix(matchup_times, scanline_time, kernel_uncer
         raise RuntimeError("Error: Averaging kernel not appropriately specified")
 
     single_uncertainty = False
-    if type(kernel_uncertainty) == float:
+    if isscalar(kernel_uncertainty):
         single_uncertainty = True
 
     ####################################################################################################################
diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 8ffcae1..1920a00 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -7,7 +7,7 @@ import logging
 import os
 
 '''___Third-Party Modules___'''
-from numpy import loadtxt, savetxt, zeros, full, array, arange, int8, ones, trim_zeros, asarray, arange, unique, int32
+from numpy import loadtxt, savetxt, zeros, full, array, arange, int8, ones, trim_zeros, asarray, arange, unique, int32, isscalar
 from scipy.sparse import csr_matrix
 from netCDF4 import Dataset
 
@@ -250,7 +250,7 @@ def generate_rolling_average_w_matrix(matchup_times, scanline_time, kernel_uncer
         raise RuntimeError("Error: Averaging kernel not appropriately specified")
 
     single_uncertainty = False
-    if type(kernel_uncertainty) == float:
+    if isscalar(kernel_uncertainty):
         single_uncertainty = True
 
     ####################################################################################################################
-- 
2.43.0


From efd1bdfa43709ddd814c373668579e4c00288922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 47/88] fix: count samples at the very start of a period in the
 average of the period

---
 harmonisation_eiv/harmonisation/core/utils/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/stats.py b/harmonisation_eiv/harmonisation/core/utils/stats.py
index 7753a20..f96782b 100644
--- a/harmonisation_eiv/harmonisation/core/utils/stats.py
+++ b/harmonisation_eiv/harmonisation/core/utils/stats.py
@@ -35,7 +35,7 @@ def time_average(data, times, time_period="month"):
 
     while current_time <= last_time:
         next_time = current_time + time_delta
-        ind = np.where((times > current_time) & (times < next_time))
+        ind = np.where((times >= current_time) & (times < next_time))
         vals = data[ind]
 
         try:
-- 
2.43.0


From a1574a7e78411fcdcbc3f8a19a6e275a7330b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 48/88] fix: count the samples at the upper end of the range in
 the last bin

---
 harmonisation_eiv/harmonisation/core/utils/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/stats.py b/harmonisation_eiv/harmonisation/core/utils/stats.py
index f96782b..d76706d 100644
--- a/harmonisation_eiv/harmonisation/core/utils/stats.py
+++ b/harmonisation_eiv/harmonisation/core/utils/stats.py
@@ -62,7 +62,10 @@ def bin(Y, X, bins=20, X_range=None):
 
     for i, (bin_min, bin_max) in enumerate(zip(bin_ranges[:-1], bin_ranges[1:])):
 
-        ind = np.where((X >= bin_min) & (X < bin_max))
+        if i == len(bins) - 1:
+            ind = np.where((X >= bin_min) & (X <= X_range[1]))
+        else:
+            ind = np.where((X >= bin_min) & (X < bin_max))
         vals = Y[ind]
 
         try:
-- 
2.43.0


From a44683ac57633fcc05a231df39a4be37793939e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 49/88] fix: check the systematic uncertainties of the second
 sensor, too

---
 tools/harmonisation_input_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index 6fa1918..ab73f80 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -320,7 +320,7 @@ def check_variable_values(rootgrp):
     # ------------------------------------------------------------------------------------------------------------------
 
     # TEST: Assert no negative uncertainties in Ur1, Ur2, Us1 and Us2 --------------------------------------------------
-    test_variables = ["Ur1", "Ur2", "Us1", "Ur2"]
+    test_variables = ["Ur1", "Ur2", "Us1", "Us2"]
     if set(test_variables).issubset(rootgrp.variables.keys()):
         for test_variable in test_variables:
             test_variable_val = rootgrp.variables[test_variable][:]
-- 
2.43.0


From 7a4a15589162b84fa6ae7535ac8dc8ad2e30f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 50/88] fix: name the correlation form of type 4 in the
 messages of the input checker, rather than fail or name another's

---
 tools/harmonisation_input_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/harmonisation_input_checker.py b/tools/harmonisation_input_checker.py
index ab73f80..8ae9a71 100644
--- a/tools/harmonisation_input_checker.py
+++ b/tools/harmonisation_input_checker.py
@@ -454,7 +454,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type1[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type1[col] == 3:
+            if uncertainty_type1[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type1[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
@@ -518,7 +518,7 @@ def check_uncertainty_assignment(rootgrp):
                 uncertainty_str = "independent+systematic"
             if uncertainty_type2[col] == 3:
                 uncertainty_str = "w-matrix"
-            if uncertainty_type2[col] == 3:
+            if uncertainty_type2[col] == 4:
                 uncertainty_str = "w-matrix+systematic"
             if uncertainty_type2[col] not in set([1, 2, 3, 4]):
                 uncertainty_str = "[NOT ASSIGNED!]"
-- 
2.43.0


From 5c419967e91b9a13280a13fb8973c11f2ad36e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 51/88] fix: write the match-ups of the 3.7um channel to the
 directories of that channel

---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 99c1813..b2cce9c 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == "37":
+    if band == 37:
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
-- 
2.43.0


From cf986858ccb391d2cea36259df1175ac920e87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 52/88] fix: select match-ups by temperature also after the
 temperatures have been renamed

---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index b2cce9c..8fd341d 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -707,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT11']['data'], temp_lim)
+                                                    additional_variables['BT']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From e94257bdbe17fd231fe43b79ce4c8f4f4fb82d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 53/88] fix: write the radiances as nominal measurands, not the
 temperatures they were computed from

---
 tools/AVHRR_to_updated_spec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 8fd341d..c4a50a7 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -195,9 +195,11 @@ def return_additional_variables(additional_variables, valid_averages):
     additional_variables_new = {}
 
     old_names = ["original_indices", "latitude", "longitude", "satza", "solza", "BT",
-                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT"]
+                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT",
+                 "nominal_measurand2", "nominal_measurand1"]
     new_names = ["original_indices", "lat2", "lon2", "vza2", "sza2", "nominal_measurand2",
-                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1"]
+                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1",
+                 "nominal_measurand2", "nominal_measurand1"]
 
     for old_name, new_name in zip(old_names, new_names):
         if old_name in additional_variables.keys():
-- 
2.43.0


From ea559507a70579102451b74d4a8b405580c47b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 54/88] fix: compute the nominal radiances of the channel of
 the file, not always of the 11um channel

---
 tools/AVHRR_to_updated_spec.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index c4a50a7..d6795b8 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -652,9 +652,9 @@ def write_file(output_file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1,
     return 0
 
 
-def convertBT2rad(sensor_name, BT):
+def convertBT2rad(sensor_name, BT, band=11):
     conv = convertBT(sensor_name)
-    rad = conv.temp2rad(BT, 2)
+    rad = conv.temp2rad(BT, {37: 1, 11: 2, 12: 3}[band])
     return rad
 
 
@@ -693,12 +693,14 @@ def main(input_file_path, output_directory, temp_lim=None):
     # Convert BT to radiance
     if "ref_BT" in additional_variables:
         additional_variables['nominal_measurand1'] = {'data': convertBT2rad(sensor_1_name,
-                                                                            additional_variables["ref_BT"]["data"]),
+                                                                            additional_variables["ref_BT"]["data"],
+                                                                            band),
                                                       "Description": "Nominal measurand for sensor 1",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
         additional_variables['nominal_measurand2'] = {"data": convertBT2rad(sensor_2_name,
-                                                                            additional_variables["BT"]["data"]),
+                                                                            additional_variables["BT"]["data"],
+                                                                            band),
                                                       "Description": "Nominal measurand for sensor 2",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
-- 
2.43.0


From 701263d321c184eaae60c2f42cd0ddc6d0d04123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 55/88] fix: convert radiances to temperatures, which failed
 for an undefined name

---
 tools/convert_bt_to_radiance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/convert_bt_to_radiance.py b/tools/convert_bt_to_radiance.py
index e020db7..d5e636c 100644
--- a/tools/convert_bt_to_radiance.py
+++ b/tools/convert_bt_to_radiance.py
@@ -132,13 +132,13 @@ class convertBT(object):
         C1 = 1.191062E-5
         C2 = 1.4387863
         
-        if isinstance(temperature,np.ndarray):
+        if isinstance(rad,np.ndarray):
             outBT = np.zeros(rad.shape)
             if 3 == len(rad.shape):
                 outBT[:,:,:] = float('nan')
             elif 2 == len(rad.shape):
                 outBT[:,:] = float('nan')
-            elif 2 == len(rad.shape):
+            elif 1 == len(rad.shape):
                 outBT[:] = float('nan')
 
             gd = (rad > 0.) & np.isfinite(rad)     
-- 
2.43.0


From 252da667bfd508fbf5294e23ced830faa4e68be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 56/88] fix: build the weighting matrix of the second microwave
 sensor from its own times

---
 tools/MW_add_W_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index 508c069..a507daa 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -82,7 +82,7 @@ def read_matchup_data(file_path):
     sensor_2_name = dataset.sensor_2_name
 
     time1 = dataset.variables['time1'][:]
-    time2 = dataset.variables['time1'][:]
+    time2 = dataset.variables['time2'][:]
 
     uR1 = dataset.variables['Ur1'][0, :]
     uR2 = dataset.variables['Ur2'][0, :]
-- 
2.43.0


From e6e4e1d8405c4b2e8c2f3489443f4f280b0efd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 57/88] fix: make the uncertainties of the first microwave
 sensor as long as its own weighting matrix is wide

---
 tools/MW_add_W_matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index a507daa..7e6c669 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -177,8 +177,8 @@ def return_w_matrix_variables_MW(time1, time2, scanline_time, uR1, uR2, weights,
         # a. Compute W data
         w_matrix1, u_matrix10 = generate_rolling_average_w_matrix(time1, scanline_time, float(uR1[0]), weights=weights)
         w_matrices = [w_matrix1, w_matrix2]
-        u_matrix11 = ones(len(u_matrix20)) * uR1[1]
-        u_matrix12 = ones(len(u_matrix20)) * uR1[2]
+        u_matrix11 = ones(len(u_matrix10)) * uR1[1]
+        u_matrix12 = ones(len(u_matrix10)) * uR1[2]
 
         u_matrices = [u_matrix10, u_matrix11, u_matrix12, u_matrix20, u_matrix21, u_matrix22]
 
-- 
2.43.0


From 3833822c1e651f83da9ad6fcdcbb68200261a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 58/88] fix: read the sensors of an AVHRR match-up file as
 numbers, not as arrays that no name can be found for

---
 tools/AVHRR_to_updated_spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index d6795b8..528fc7a 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = rootgrp.variables["lm"][0, 0]
-    sensor_2_name = rootgrp.variables["lm"][0, 1]
+    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
+    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
-- 
2.43.0


From d33277f65d5abc9eef86e27c268720aaf40fc3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 59/88] fix: run the converter of simulated match-ups with its
 command line, without which it always failed

---
 tools/pmh2fiduceo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 1920a00..7a546f3 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -818,5 +818,4 @@ def main(parsed_cmdline):
     return 0
 
 if __name__ == "__main__":
-    #main(parsed_cmdline)
-    main()
+    main(parsed_cmdline)
-- 
2.43.0


From 0d05554e2dcca452b0021382ba7470eca8f0e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 60/88] fix: convert simulated datasets of more than one pair,
 whose match-up uncertainties replaced the number they are made of

---
 tools/pmh2fiduceo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index 7a546f3..b372137 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -761,12 +761,12 @@ def run_conversion(input_directory, output_directory):
         uncertainty_type2 = array(uncertainty_type)
 
         K = H[i_start:i_end, -1]
-        Kr = full(n_mu, Kr)
+        Kr_i = full(n_mu, Kr)
         Ks = zeros(n_mu)
 
         time = arange(i_start, i_end)
 
-        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
+        write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr_i, Ks,
                          time, time, sensor_1_name, sensor_2_name, additional_variables=None)
 
     logger.info("Adding W matrices...")
-- 
2.43.0


From 295796d82eeae8d4a7ecb807615426d5896217a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 61/88] fix: convert simulated datasets without structured
 errors, and pairs of different lengths with their own W matrix

---
 tools/pmh2fiduceo.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index b372137..a880008 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -774,17 +774,22 @@ def run_conversion(input_directory, output_directory):
     nW_w = [n for n,t in zip(nW, uncertainty_type) if t == 3]
 
     # Check all W matrices the same
-    if (nW_w.count(nW_w[0]) != len(nW_w)) and (uR_w.count(uR_w[0]) != len(uR_w)):
+    if (len(set(nW_w)) > 1) or (len(set(uR_w)) > 1):
         raise ValueError("Expected all W matrices to be the same, Sam needs to do more coding")
-    else:
-        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(time, 1.0, uR_w[0], kernel_size=nW_w[0])
-        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
-        uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix], [uncertainty_matrix])
 
     w_matrix_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
     uncertainty_vector_use2 = array([1 if t == 3 else 0 for t in uncertainty_type], int8)
 
-    for o, sensor_pair in zip(output_file_paths, Im):
+    for o, sensor_pair, n_mu in zip(output_file_paths, Im, Nm):
+        if nW_w == []:
+            break
+
+        w_matrix, uncertainty_matrix = generate_rolling_average_w_matrix(arange(n_mu), 1.0, uR_w[0],
+                                                                         kernel_size=nW_w[0])
+        w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz, \
+            uncertainty_vector_row_count, uncertainty_vector = return_w_matrix_variables([w_matrix],
+                                                                                         [uncertainty_matrix])
+
         if sensor_pair[0] == '0':
             w_matrix_use1 = array([0], int8)
             uncertainty_vector_use1 = array([0], int8)
-- 
2.43.0


From 39f6a5047ef9f6ecf65e076adf606f5fd5972af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 62/88] fix: write the W matrix variables given to the match-up
 file writer, rather than drop them silently

---
 .../core/matchup/matchupIO/MatchUpWriter.py   | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
index f00d830..a882fe3 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
@@ -241,8 +241,27 @@ class MatchUpWriter:
 
         # > w_matrix variables
         if w_matrix_variables is not None:
-            pass
-            # todo - update this part!!!
+            w_matrix_nnz, w_matrix_row, w_matrix_col, w_matrix_val, w_matrix_use1, w_matrix_use2, \
+                u_matrix_row_count, u_matrix_val, u_matrix_use1, u_matrix_use2 = w_matrix_variables
+
+            rootgrp.createDimension("w_matrix_count", len(w_matrix_nnz))
+            rootgrp.createDimension("w_matrix_row_count", w_matrix_row.shape[1])
+            rootgrp.createDimension("w_matrix_nnz_sum", len(w_matrix_val))
+            rootgrp.createDimension("u_matrix_count", len(u_matrix_row_count))
+            rootgrp.createDimension("u_matrix_row_count_sum", len(u_matrix_val))
+
+            for name, dtype, dim, data in [
+                    ('w_matrix_nnz', 'i4', ('w_matrix_count',), w_matrix_nnz),
+                    ('w_matrix_row', 'i4', ('w_matrix_count', 'w_matrix_row_count'), w_matrix_row),
+                    ('w_matrix_col', 'i4', ('w_matrix_nnz_sum',), w_matrix_col),
+                    ('w_matrix_val', 'f8', ('w_matrix_nnz_sum',), w_matrix_val),
+                    ('w_matrix_use1', 'i4', ('m1',), w_matrix_use1),
+                    ('w_matrix_use2', 'i4', ('m2',), w_matrix_use2),
+                    ('u_matrix_row_count', 'i4', ('u_matrix_count',), u_matrix_row_count),
+                    ('u_matrix_val', 'f8', ('u_matrix_row_count_sum',), u_matrix_val),
+                    ('u_matrix_use1', 'i4', ('m1',), u_matrix_use1),
+                    ('u_matrix_use2', 'i4', ('m2',), u_matrix_use2)]:
+                rootgrp.createVariable(name, dtype, dim, zlib=True, complevel=9)[:] = data[:]
 
         # > additional variables - non-required variable to add to harmonisation input files
         if additional_variables is not None:
-- 
2.43.0


From 0be90ac458b8e0ea96458f6b547597adf031d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 63/88] fix: convert simulated datasets of a single match-up

---
 tools/pmh2fiduceo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/pmh2fiduceo.py b/tools/pmh2fiduceo.py
index a880008..8336f8a 100644
--- a/tools/pmh2fiduceo.py
+++ b/tools/pmh2fiduceo.py
@@ -128,7 +128,7 @@ def prepare_directories(input_directory, output_directory):
 def open_data_vals(input_directory):
     path = os.path.join(input_directory, "data_vals.txt")
     logger.debug("Opening: "+path)
-    return loadtxt(path)
+    return loadtxt(path, ndmin=2)
 
 
 def open_data_pams(input_directory):
-- 
2.43.0


From d63e957dac0d464545e7115c0465ceedcdda4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 64/88] revert: leave tools/AVHRR_to_updated_spec.py as it was

---
 tools/AVHRR_to_updated_spec.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 528fc7a..99c1813 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
-    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
+    sensor_1_name = rootgrp.variables["lm"][0, 0]
+    sensor_2_name = rootgrp.variables["lm"][0, 1]
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
@@ -195,11 +195,9 @@ def return_additional_variables(additional_variables, valid_averages):
     additional_variables_new = {}
 
     old_names = ["original_indices", "latitude", "longitude", "satza", "solza", "BT",
-                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT",
-                 "nominal_measurand2", "nominal_measurand1"]
+                 "ref_latitude", "ref_longitude", "ref_satza", "ref_solza", "ref_BT"]
     new_names = ["original_indices", "lat2", "lon2", "vza2", "sza2", "nominal_measurand2",
-                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1",
-                 "nominal_measurand2", "nominal_measurand1"]
+                 "lat1", "lon1", "vza1", "sza1", "nominal_measurand1"]
 
     for old_name, new_name in zip(old_names, new_names):
         if old_name in additional_variables.keys():
@@ -443,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == 37:
+    if band == "37":
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
@@ -652,9 +650,9 @@ def write_file(output_file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1,
     return 0
 
 
-def convertBT2rad(sensor_name, BT, band=11):
+def convertBT2rad(sensor_name, BT):
     conv = convertBT(sensor_name)
-    rad = conv.temp2rad(BT, {37: 1, 11: 2, 12: 3}[band])
+    rad = conv.temp2rad(BT, 2)
     return rad
 
 
@@ -693,14 +691,12 @@ def main(input_file_path, output_directory, temp_lim=None):
     # Convert BT to radiance
     if "ref_BT" in additional_variables:
         additional_variables['nominal_measurand1'] = {'data': convertBT2rad(sensor_1_name,
-                                                                            additional_variables["ref_BT"]["data"],
-                                                                            band),
+                                                                            additional_variables["ref_BT"]["data"]),
                                                       "Description": "Nominal measurand for sensor 1",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
         additional_variables['nominal_measurand2'] = {"data": convertBT2rad(sensor_2_name,
-                                                                            additional_variables["BT"]["data"],
-                                                                            band),
+                                                                            additional_variables["BT"]["data"]),
                                                       "Description": "Nominal measurand for sensor 2",
                                                       "dim": ("M",),
                                                       "dtype": "f4"}
@@ -711,7 +707,7 @@ def main(input_file_path, output_directory, temp_lim=None):
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2)
     else:
         valid_averages = return_valid_averages_mask(u_C_S_sensor_1, u_C_ICT_sensor_1, u_C_S_sensor_2, u_C_ICT_sensor_2,
-                                                    additional_variables['BT']['data'], temp_lim)
+                                                    additional_variables['BT11']['data'], temp_lim)
 
     # > Define X1, X2, Ur1, Ur2, Us1 and Us2 arrays
     m1 = 5
-- 
2.43.0


From ea012d2a51419459d287c50d65f50fba6cc6d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 65/88] fix: dates and times for time stamps beyond 32 bits and
 at midnight

The seconds of a day were computed in 32 bit integers, so that time stamps
from 2038-01-19 on gave a wrong time; the date was computed from a rounded
Julian date, which is the next day just before midnight.
---
 .../src/main/fortran/gpl/mod_time.F90         | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
index 5cc5bf7..79a0246 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_time.F90
@@ -22,7 +22,7 @@
 !! @author Ralf Quast
 !! @copyright GNU Public License.
 module mod_time
-  use mod_base, only: dp, sp
+  use mod_base, only: dp, long, sp
 
   implicit none
 
@@ -56,15 +56,15 @@ contains
   function iso_date_and_time( uts ) result (iso)
     real(kind=dp), intent(in) :: uts
     character(len=16) :: iso
-    real(kind=dp) :: jd
+    integer(kind=long) :: t
     integer :: day, month, year, date, time, hour, minute, secs
     integer :: jdn
     integer :: e
     integer :: f
     integer :: g
     integer :: h
-    !! The Unix epoch expressed as Julian date
-    real(kind=dp), parameter  :: EPOCH_19700101T000000Z = 2440587.5_dp
+    !! The Julian day number of the Unix epoch
+    integer, parameter :: EPOCH_19700101 = 2440588
     !! Constants from Richards (2013)
     integer, parameter :: B = 274277
     integer, parameter :: J = 1401
@@ -79,9 +79,10 @@ contains
     integer, parameter :: W = 2
     integer, parameter :: Y = 4716
 
-    !! Compute Julian date and Julian day number
-    jd = EPOCH_19700101T000000Z + uts / 86400.0_dp
-    jdn = int( floor( jd + 0.5_dp ) )
+    !! Compute seconds of day and Julian day number
+    t = floor( uts, long )
+    secs = int( modulo( t, 86400_long ) )
+    jdn = EPOCH_19700101 + int( (t - secs) / 86400_long )
 
     !! Compute years, months, days (Richards 2013)
     f = jdn + J + (((4 * jdn + B) / 146097) * 3) / 4 + C
@@ -93,10 +94,6 @@ contains
     year = (e / P) - Y + (N + M - month) / N
 
     !! Compute hours, minutes, and seconds
-    secs = mod( int( floor( uts ) ), 86400 )
-    if (secs < 0) then
-      secs = secs + 86400
-    end if
     hour = secs / 3600
     minute = (secs - hour * 3600) / 60
     secs = secs - hour * 3600 - minute * 60
-- 
2.43.0


From 778a73274c30dc887f7d558ccd536f5eb3ae2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 66/88] fix: check the uncertainties of the second sensor for
 huge values

The uncertainties of the first sensor were checked twice.
---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index 2ef98cb..c1fbe34 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -235,7 +235,7 @@ contains
     call assert_not_infinite( ur1, "Ur1" )
     call assert_not_infinite( ur2, "Ur2" )
     call assert_not_huge( ur1, "Ur1" )
-    call assert_not_huge( ur1, "Ur2" )
+    call assert_not_huge( ur2, "Ur2" )
     call read_variable( ncid, "Us1", us1, 0.0_cp )
     call read_variable( ncid, "Us2", us2, 0.0_cp )
     call assert_not_nan( us1, "Us1" )
@@ -243,7 +243,7 @@ contains
     call assert_not_infinite( us1, "Us1" )
     call assert_not_infinite( us2, "Us2" )
     call assert_not_huge( us1, "Us1" )
-    call assert_not_huge( us1, "Us2" )
+    call assert_not_huge( us2, "Us2" )
     !! 5.c) Allocate storage for matrix metadata
     allocate (u_types1(m1 + m1))
     allocate (u_types2(m2 + m2))
-- 
2.43.0


From f613c6276e0adf27b601d8b2dc9f0660f384e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 67/88] fix: use the uncertainty types of the selected columns

The matrices were set up from the uncertainty types of the first columns
even when other columns are selected.
---
 .../src/main/fortran/gpl/mod_reader.F90              | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index c1fbe34..526c4ee 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -430,10 +430,16 @@ contains
     integer, intent(out) :: ic(:)
     integer, intent(out) :: iv(:)
     integer, intent(out) :: iw(:)
+    integer :: c
     integer :: l
 
     do l = 1, r
-      select case (u_types(l))
+      if (config_job_sensor_columns_select(i)) then
+        c = config_job_sensor_columns(i, l)
+      else
+        c = l
+      end if
+      select case (u_types(c))
         case (C_INDEPENDENT)
           if (config_job_sensor_columns_select(i)) then
             call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
@@ -446,7 +452,7 @@ contains
           end if
         case (C_INDEPENDENT_PERTURBED)
           if (.not. config_job_enable_covariance_common) then
-            u_types(l) = C_INDEPENDENT
+            u_types(c) = C_INDEPENDENT
             if (config_job_sensor_columns_select(i)) then
               call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
             else
@@ -472,7 +478,7 @@ contains
             iw(l) = w_matrix_indices(w_matrix_use(l))
           end if
         case (C_STRUCTURED_PERTURBED) !! not yet supported, treated like structured random correlation
-          u_types(l) = C_STRUCTURED
+          u_types(c) = C_STRUCTURED
           if (config_job_sensor_columns_select(i)) then
             iv(l) = v_matrix_indices(u_matrix_use(config_job_sensor_columns(i, l)))
             iw(l) = w_matrix_indices(w_matrix_use(config_job_sensor_columns(i, l)))
-- 
2.43.0


From f1ede7b743f2f7b495a38eb53b61fb574480ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 68/88] fix: use the configured names of the result datasets

A configured name of the parameter dataset was never used, that of the
residuals datasets was used with its trailing blanks.
---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
index 0ea9ea0..7fa624c 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
@@ -551,7 +551,7 @@ contains
     character(len=*), parameter  :: pre = "harm"
     character(len=1), parameter  :: sep = "_"
 
-    if (len( config_name_parameter_dataset ) > 0) then
+    if (config_name_parameter_dataset == "") then
       name = pre
       name = trim( name )//sep//trim( config_value_att_software )
       name = trim( name )//sep//trim( config_value_att_software_version )
@@ -599,7 +599,7 @@ contains
       name = trim( name )//sep//trim( sensor_j_name )
       name = trim( name )//trim( ext )
     else
-      name = config_name_residuals_dataset//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
+      name = trim( config_name_residuals_dataset )//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
     end if
   end function get_residuals_dataset_name
 
-- 
2.43.0


From 0f60b8c70d807b5321d7d06300dd7cee4aa11886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 69/88] fix: units of the residual weights

The units of the weights were given to the uncertainty of the residuals.
---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 5249f19..57afdd9 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -227,7 +227,7 @@ contains
     if (config_job_enable_unit /= "") then
       call add_attribute( ncid, k_res_id, "units", config_job_enable_unit )
       call add_attribute( ncid, k_res_unc_id, "units", config_job_enable_unit )
-      call add_attribute( ncid, k_res_unc_id, "units", "1 / "//config_job_enable_unit )
+      call add_attribute( ncid, k_res_weights_id, "units", "1 / "//config_job_enable_unit )
       call add_attribute( ncid, meas_i_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_j_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_i_unc_q_id, "units", config_job_enable_unit )
-- 
2.43.0


From cb7f196e8b79c58e177ab6d7c0d6fbc455519f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 70/88] fix: write times in double precision

Single precision is too coarse for the seconds since 1970.
---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 57afdd9..46d0eb7 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -203,7 +203,7 @@ contains
     call add_dimension( ncid, config_name_dim_m, ds%m, m_id )
 
     !! 4) Add variables
-    call add_var_vector( ncid, real( ds%t, cp ), m_id, config_name_var_time, &
+    call add_var_vector( ncid, ds%t, m_id, config_name_var_time, &
       config_desc_var_time, t_id )
     call add_attribute( ncid, t_id, "units", config_unit_var_time )
     call add_var_vector( ncid, real( ds%k_res, cp ), m_id, config_name_var_k_res, &
-- 
2.43.0


From 0f22fdfd78aae048e4e3be53dbce77559aaa58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 71/88] fix: remove an unknown entry from the job template

config_job_random does not exist in this software, so that a job made from
the template was refused as faulty.
---
 .../src/main/resources-filtered/templates/template_job.nml       | 1 -
 1 file changed, 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml b/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
index c1a2012..978d122 100644
--- a/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
+++ b/harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml
@@ -1,6 +1,5 @@
 $job
    config_job_id                       = "01"
-   config_job_random                   = 0
    config_job_enable_covariance_matrix = F   
    config_job_enable_covariance_update = F
    config_job_enable_prior_data        = F
-- 
2.43.0


From 00a0afa071d6541b99a6f9be705128f29679eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 72/88] fix: the summary of datasets without uncertainties,
 such as simulations, failed

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 4f5f25b..31dc9ff 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -377,7 +377,7 @@ class MatchUp(object):
                                                           n_mu_i]) + ", "
                         string += "]\n"
 
-                if self.unc is not None:
+                if self.unc:
                     string += "\n"+str(self.idx['sensors'][n_sensor])+" Sensor State Data Uncertainty Types: "
                     string += "["
                     indices = [(i1, i2, i3) for i1, i2, i3 in zip(self.idx['n_sensor'], self.idx['n_mu'], self.idx['n_cov'])]
@@ -405,7 +405,7 @@ class MatchUp(object):
                     string += "{:.2f}".format(self.ks[i_start + n_mu_i]) + ", "
                     string += "]\n"
 
-            if self.unck is not None:
+            if self.unck:
                 string+="\nSeries K Uncertainty Type: "+str(self.unck[n_mu].typeID)
 
             string+="\n"
-- 
2.43.0


From 51d126f027f12f1af43ec90d1f429b6f04ca8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 73/88] fix: harm_comp_plot failed on the names of the
 arguments of its operator

---
 harmonisation_eiv/harmonisation/tools/harm_comp_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py b/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
index ab72d1d..095241a 100644
--- a/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
+++ b/harmonisation_eiv/harmonisation/tools/harm_comp_plot.py
@@ -44,8 +44,8 @@ def main():
     conf = {}
 
     # Initialise object
-    harm_comp_op = HarmonisationComparisonPlottingOp(dataset_paths=dataset_dir,
-                                                     sensor_data_path=sensor_data,
+    harm_comp_op = HarmonisationComparisonPlottingOp(dataset_dir=dataset_dir,
+                                                     sensor_data=sensor_data,
                                                      output_dir=output_dir)
 
     # Run algorithm
-- 
2.43.0


From 20f74aa41da42e43b489c3e145d37d3384b36b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 74/88] fix: scatter plots lost errors of a single series, and
 failed for several series without legend and for nothing to draw

---
 harmonisation_eiv/harmonisation/core/utils/plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/utils/plots.py b/harmonisation_eiv/harmonisation/core/utils/plots.py
index 20b3745..ea9cb4b 100644
--- a/harmonisation_eiv/harmonisation/core/utils/plots.py
+++ b/harmonisation_eiv/harmonisation/core/utils/plots.py
@@ -84,7 +84,7 @@ def plot_scatter(savePath, Y, X, xlbl=None, ylbl=None, title=None, yerr=None, xe
             Y = [Y_i[~isnan(Y_i)] for Y_i in Y]
 
     if legend == None:
-        if (type(X) == list) and ((type(X[0]) == list) & (type(X[0]) == ndarray)):
+        if (type(X) == list) and ((type(X[0]) == list) | (type(X[0]) == ndarray)):
             legend = ['__nolegend__' for i in range(len(X))]
         else:
             legend = ['__nolegend__']
@@ -145,9 +145,11 @@ def plot_scatter(savePath, Y, X, xlbl=None, ylbl=None, title=None, yerr=None, xe
             ax.axvline(x=x, linewidth=0.7, color='k')
 
     # add error bars to data points
-    if (type(X) != list) and ((type(X[0]) != list) & (type(X[0]) != ndarray)):
+    if (type(X) != list) and ((len(X) == 0) or ((type(X[0]) != list) & (type(X[0]) != ndarray))):
         X = [X]
         Y = [Y]
+        yerr = [yerr] if yerr is not None else None
+        xerr = [xerr] if xerr is not None else None
 
     colours = ["#1f78b4",
                "#a6cee3",
-- 
2.43.0


From 824756841e7dbac249099c071fca437e3b9d493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 75/88] fix: harmonised measurands of second sensors were
 computed with the nominal parameters

---
 .../harmonisation/harmonisationVis/HarmonisationVis.py    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index ab1b688..8355713 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -96,12 +96,8 @@ class HarmonisationVis(MatchUpVis):
     def get_L2_harm(self):
         if self.L2_harm is None:
             if self.MatchUpData is not None:
-                try:
-                    L_est = evaluate_adjusted_measurand(self.MatchUpData)
-                    self.L1_harm = L_est[:, 0]
-                    self.L2_harm = L_est[:, 1]
-                except:
-                    raise ValueError("Unable to evaluate harmonised radiances")
+                # evaluated with those of the first sensors, with the parameters of the harmonisation
+                self.get_L1_harm()
             else:
                 raise ValueError("Matchup data not available")
         return self.L2_harm
-- 
2.43.0


From a8740b37bac0faf1c7702ff1ed684c6a211a1171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 76/88] fix: density figures were given lists of match-up
 series instead of data

---
 .../harmonisation/harmonisationVis/HarmonisationVis.py   | 9 +++++----
 .../harmonisation/core/matchup/matchupVis/MatchUpVis.py  | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index 8355713..9fedee0 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -7,6 +7,7 @@ from os.path import join as pjoin
 from copy import deepcopy
 
 '''__Third Party Modules___'''
+from numpy import concatenate
 import matplotlib
 matplotlib.use('Agg')  # Force matplotlib to not use any Xwindows backend.
 
@@ -172,8 +173,8 @@ class HarmonisationVis(MatchUpVis):
 
     def plot_kres_harm_harm_density(self, directory, ylim=None):
         plot_density(pjoin(directory, "k_res_harmonised_density.pdf"),
-                     self.get_kres_harm_harm_musamples(),
-                     self.get_times_musamples(),
+                     concatenate(self.get_kres_harm_harm_musamples()),
+                     concatenate(self.get_times_musamples()),
                      bins=200, title="", ylbl="Harmonised K Residual", xlbl="Time",
                      txt=["M = " + str(self.get_mu_total()) + " "], solid_ylines=[0], ylim=ylim)
         return 0
@@ -198,8 +199,8 @@ class HarmonisationVis(MatchUpVis):
 
     def plot_kres_nom_harm_density(self, directory, ylim=None):
         plot_density(pjoin(directory, "k_res_nom_harm_density.pdf"),
-                     self.get_kres_nom_harm_musamples(),
-                     self.get_times_musamples(),
+                     concatenate(self.get_kres_nom_harm_musamples()),
+                     concatenate(self.get_times_musamples()),
                      bins=200, title="", ylbl="K = K - (nominal-harmonised)", xlbl="Time",
                      txt=["M = " + str(self.get_mu_total()) + " "], solid_ylines=[0], ylim=ylim)
         return 0
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 282a6f5..a3b9394 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -11,7 +11,7 @@ from os.path import join as pjoin
 import matplotlib
 # Force matplotlib to not use any Xwindows backend.
 matplotlib.use('Agg')
-from numpy import isnan, sort, arange, sort
+from numpy import isnan, sort, arange, sort, concatenate
 from numpy.random import rand
 
 '''___harmonisation Modules___'''
@@ -280,8 +280,8 @@ class MatchUpVis:
 
     def plot_kres_nom_nom_density(self, directory, ylim=None):
         plot_density(pjoin(directory, "k_res_nominal_density.pdf"),
-                     self.get_kres_nom_nom_musamples(),
-                     self.get_times_musamples(),
+                     concatenate(self.get_kres_nom_nom_musamples()),
+                     concatenate(self.get_times_musamples()),
                      bins=200, title="", ylbl="Nominal K Residual", xlbl="Time",
                      txt=["M = " + str(self.get_mu_total()) + " "], solid_ylines=[0], ylim=ylim)
         return 0
-- 
2.43.0


From e1fb6d18d4f9cc484d6f9d7c165057cc4cbe4356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 77/88] fix: figures binned by covariates that not all second
 sensors have failed, and were labelled by position

---
 .../core/matchup/matchupVis/MatchUpVis.py     | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index a3b9394..7c5ed7c 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -136,8 +136,9 @@ class MatchUpVis:
                     Xmax_i.append(self.MatchUpData.getVariableDataMax(cov, sensor_2_name, mu))
                     Xmin_i.append(self.MatchUpData.getVariableDataMin(cov, sensor_2_name, mu))
 
-            Xmaxs.append(max(Xmax_i))
-            Xmins.append(min(Xmin_i))
+            # NB: there may be covariates that no second sensor has
+            Xmaxs.append(max(Xmax_i) if Xmax_i else None)
+            Xmins.append(min(Xmin_i) if Xmin_i else None)
 
         self.Xmaxs = Xmaxs
         self.Xmins = Xmins
@@ -328,6 +329,7 @@ class MatchUpVis:
             averages = []
             stds = []
             Xaverages = []
+            labels = []
 
             # Plot per match-up series
             for i, mu in enumerate(mus):
@@ -336,13 +338,13 @@ class MatchUpVis:
                 i1 = MatchUpData.idx["cNm"][mu - 1]
                 i2 = MatchUpData.idx["cNm"][mu]
                 sensor_2_name = MatchUpData.idx['sensors'][MatchUpData.idx['Im'][mu - 1][1]]
-                cov_name = self.get_X_name(cov, sensor_2_name)
-                cov_label = "$"+self.get_X_label(cov, sensor_2_name) + "$ (Binned)"
                 mu_fn = matchup_fname_suffix[mu-1]
 
                 # Plot if sensor 2 of given match-up series has an cov-th X
                 sensor_2_m = MatchUpData.idx['sensor_ms'][MatchUpData.idx['Im'][mu - 1][1]]
                 if cov <= sensor_2_m:
+                    cov_name = self.get_X_name(cov, sensor_2_name)
+                    cov_label = "$"+self.get_X_label(cov, sensor_2_name) + "$ (Binned)"
                     X = MatchUpData.getVariableData(cov, sensor_2_name, mu)
 
                     # Bin data by match-up series limits
@@ -350,7 +352,7 @@ class MatchUpVis:
                     # Plot match-up series
                     fname_i = pjoin(directory, fname+"." + cov_name + "_" + sensor_2_name + "_binned." + mu_fn + ".pdf")
                     plot_scatter(fname_i, averages_i, Xaverages_i,
-                                 xlbl=cov_label+" - "+sensor_2_name, ylbl=title+" ("+matchup_labels[i]+")",
+                                 xlbl=cov_label+" - "+sensor_2_name, ylbl=title+" ("+matchup_labels[mu-1]+")",
                                  title="", yerr=stds_i, xerr=None, txt=None,
                                  line='-', legend=None, solid_ylines=[0], ylim=ylim)
                     # Bin data by full limits
@@ -358,12 +360,14 @@ class MatchUpVis:
                     averages.append(averages_i[~isnan(averages_i)])
                     stds.append(stds_i[~isnan(averages_i)])
                     Xaverages.append(Xaverages_i[~isnan(averages_i)])
-
-            # Plot X for all match-up series
-            plot_scatter(pjoin(directory, fname + "." + cov_name + "_sensor_2_binned.pdf"), averages, Xaverages,
-                         xlbl=cov_label + " - Sensor 2", ylbl=title, title="",
-                         yerr=stds, xerr=None, txt=None, line='-', legend=matchup_labels, legend_loc="outside",
-                         solid_ylines=[0], fig_size=(12, 8), ylim=ylim)
+                    labels.append(matchup_labels[mu-1])
+
+            # Plot X for all match-up series (if there are any of which sensor 2 has an cov-th X)
+            if labels:
+                plot_scatter(pjoin(directory, fname + "." + cov_name + "_sensor_2_binned.pdf"), averages, Xaverages,
+                             xlbl=cov_label + " - Sensor 2", ylbl=title, title="",
+                             yerr=stds, xerr=None, txt=None, line='-', legend=labels, legend_loc="outside",
+                             solid_ylines=[0], fig_size=(12, 8), ylim=ylim)
 
     def plot_Y_x_binned_line(self, directory, Y, x, x_name, x_label, title, fname, ylim=None, mus=None):
         """
-- 
2.43.0


From 85ade3d2e09e7a92143f808a3bf041a5fa769f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 78/88] fix: figures binned by additional data with missing
 values, or missing from some match-up series

---
 .../core/matchup/matchupVis/MatchUpVis.py     | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
index 7c5ed7c..aacd060 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupVis/MatchUpVis.py
@@ -11,7 +11,7 @@ from os.path import join as pjoin
 import matplotlib
 # Force matplotlib to not use any Xwindows backend.
 matplotlib.use('Agg')
-from numpy import isnan, sort, arange, sort, concatenate
+from numpy import isnan, sort, arange, sort, concatenate, nanmin, nanmax
 from numpy.random import rand
 
 '''___harmonisation Modules___'''
@@ -404,13 +404,17 @@ class MatchUpVis:
         matchup_labels = self.get_mu_labels()
         matchup_fname_suffix = self.get_mu_fname_suffix()
 
-        xmin = min(x)
-        xmax = max(x)
+        # NB: x may have missing values, and be missing from some of the match-up series altogether
+        if isnan(x).all():
+            return 0
+        xmin = nanmin(x)
+        xmax = nanmax(x)
 
         # b. Initialise data lists
         averages = []
         stds = []
         averages_x = []
+        labels = []
 
         if mus is None:
             mus = list(range(1, max(MatchUpData.idx['n_mu'])+1))
@@ -426,13 +430,15 @@ class MatchUpVis:
 
             # Bin by x for match-up series (match-up series data range)
             x_i = x[i1:i2]
-            x_i_range = [min(x_i), max(x_i)]
+            if isnan(x_i).all():
+                continue
+            x_i_range = [nanmin(x_i), nanmax(x_i)]
             averages_i, stds_i, averages_x_i = bin(Y[i1:i2], x_i, bins=50, X_range=x_i_range)
 
             # Plot match-up series data
             fname_i = pjoin(directory, fname + "." + x_name + "_" + sensor_2_name + "_binned." + mu_fn + ".pdf")
             plot_scatter(fname_i, averages_i, averages_x_i,
-                         xlbl=x_label + " - " + sensor_2_name, ylbl=title + " (" + matchup_labels[i] + ")",
+                         xlbl=x_label + " - " + sensor_2_name, ylbl=title + " (" + matchup_labels[mu-1] + ")",
                          title="", yerr=stds_i, xerr=None, txt=None,
                          line='-', legend=None, solid_ylines=[0], ylim=ylim)
 
@@ -441,12 +447,14 @@ class MatchUpVis:
             averages.append(averages_i[~isnan(averages_i)])
             stds.append(stds_i[~isnan(averages_i)])
             averages_x.append(averages_x_i[~isnan(averages_i)])
+            labels.append(matchup_labels[mu-1])
 
         # 3. Plot all match-up series together
-        plot_scatter(pjoin(directory, fname + "." + x_name + "_sensor_2_binned.pdf"), averages, averages_x,
-                     xlbl=x_label + " - Sensor 2", ylbl=title, title="",
-                     yerr=stds, xerr=None, txt=None, line='-', legend=matchup_labels, legend_loc="outside",
-                     solid_ylines=[0], fig_size=(12,8), ylim=ylim)
+        if labels:
+            plot_scatter(pjoin(directory, fname + "." + x_name + "_sensor_2_binned.pdf"), averages, averages_x,
+                         xlbl=x_label + " - Sensor 2", ylbl=title, title="",
+                         yerr=stds, xerr=None, txt=None, line='-', legend=labels, legend_loc="outside",
+                         solid_ylines=[0], fig_size=(12,8), ylim=ylim)
 
         return 0
 
-- 
2.43.0


From dd1226647db1b9b0fa84d5ef95bebbc1e2bb421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 79/88] fix: HarmonisationVis: restore the dataset and raise
 when harmonised quantities cannot be evaluated

---
 .../harmonisationVis/HarmonisationVis.py            | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index 9fedee0..175fe32 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -78,18 +78,19 @@ class HarmonisationVis(MatchUpVis):
     def get_L1_harm(self):
         if self.L1_harm is None:
             if self.MatchUpData is not None:
+                old_a = deepcopy(self.MatchUpData.a)
+                old_parameter_sensors = deepcopy(self.MatchUpData.idx['parameter_sensor'])
                 try:
-                    old_a = deepcopy(self.MatchUpData.a)
-                    old_parameter_sensors = deepcopy(self.MatchUpData.idx['parameter_sensor'])
                     self.MatchUpData.a = deepcopy(self.HarmResult.parameter)
                     self.MatchUpData.idx['parameter_sensor'] = deepcopy(self.HarmResult.parameter_sensors)
                     L_est = evaluate_adjusted_measurand(self.MatchUpData)
                     self.L1_harm = L_est[:, 0]
                     self.L2_harm = L_est[:, 1]
-                    self.MatchUpData.a = old_a
-                    self.MatchUpData.idx['parameter_sensor'] = old_parameter_sensors
                 except:
                     raise ValueError("Unable to evaluate harmonised radiances")
+                finally:
+                    self.MatchUpData.a = old_a
+                    self.MatchUpData.idx['parameter_sensor'] = old_parameter_sensors
             else:
                 raise ValueError("Matchup data not available")
         return self.L1_harm
@@ -109,7 +110,7 @@ class HarmonisationVis(MatchUpVis):
             try:
                 self.kres_harm_harm = self.get_L2_harm() - self.get_L1_harm() - self.MatchUpData.ks
             except:
-                return ValueError("Couldn't evaluate harmonised kres")
+                raise ValueError("Couldn't evaluate harmonised kres")
         return self.kres_harm_harm
 
     def get_kres_nom_harm(self):
@@ -118,7 +119,7 @@ class HarmonisationVis(MatchUpVis):
             try:
                 self.kres_nom_harm = self.get_L2_nom() - self.get_L1_harm() - self.MatchUpData.ks
             except:
-                return ValueError("Couldn't evaluate harmonised kres")
+                raise ValueError("Couldn't evaluate harmonised kres")
         return self.kres_nom_harm
 
     def get_L1_harm_musamples(self):
-- 
2.43.0


From 7489551fe0e404183c783467bfeae3bb38a7cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 80/88] fix: ranges of additional data ignore missing values
 instead of depending on where they are

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 31dc9ff..2067b47 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -5,7 +5,7 @@ MatchUp Data Class
 '''___Built-In Modules___'''
 
 '''___Third-Party Modules___'''
-from numpy import array, float32
+from numpy import array, float32, nanmax, nanmin
 
 '''___harmonisation Modules___'''
 import MatchUpReader
@@ -299,10 +299,10 @@ class MatchUp(object):
         return self.idx['additional_values_name']
 
     def getAdditionalDataMax(self, additional_variable_name, matchup_number=None):
-        return max(self.getAdditionalData(additional_variable_name, matchup_number))
+        return nanmax(self.getAdditionalData(additional_variable_name, matchup_number))
 
     def getAdditionalDataMin(self, additional_variable_name, matchup_number=None):
-        return min(self.getAdditionalData(additional_variable_name, matchup_number))
+        return nanmin(self.getAdditionalData(additional_variable_name, matchup_number))
 
     def save_to_netcdf(self, path):
         """
-- 
2.43.0


From 3c65144784c1e1f8f5f0f1a2c7459a3e226033b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 81/88] fix: fill values of single-precision additional
 variables and masked ones are read as missing

---
 .../core/matchup/matchupIO/MatchUpReader.py            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 8a7047c..f9dfe11 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -13,6 +13,7 @@ from importlib import import_module
 
 '''___Third-Party Modules___'''
 from numpy import zeros, append, asarray, cumsum, int32, ones, nan, float32
+from numpy.ma import getdata, getmaskarray
 from scipy.sparse import csr_matrix
 from netCDF4 import Dataset
 
@@ -541,13 +542,12 @@ class MatchUpReader:
             for i_variable, variable in enumerate(idx["additional_values_name"]):
 
                 if variable in dataset.variables.keys():
-                    additional_values[i_start:i_end, i_variable] = dataset.variables[variable][:]
+                    variable_data = dataset.variables[variable][:]
+                    additional_values[i_start:i_end, i_variable] = variable_data
 
-                    # Set fill data (value -1e30) to nan
-                    if variable == "nominal_BT2":
-                        pass
+                    # Set fill data (missing, or value -1e30 in the precision of the variable) to nan
                     additional_values[i_start:i_end, i_variable]\
-                        [additional_values[i_start:i_end, i_variable] == -1e30] = nan
+                        [getmaskarray(variable_data) | (getdata(variable_data) == -1e30)] = nan
                 else:
                     additional_values[i_start:i_end, i_variable] = nan
 
-- 
2.43.0


From baf46370e8dbc7e656682c398f313a8d2f9709f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 82/88] fix: match-up times do not depend on the time zone of
 the machine

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index f9dfe11..0e02c1b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -4,7 +4,7 @@ MatchUpReader Class
 
 '''___Built-In Modules___'''
 from copy import deepcopy
-from datetime import datetime
+from datetime import datetime, timedelta
 from os import listdir
 from os.path import join as pjoin
 from os.path import split, splitext, basename, isdir, isfile
@@ -504,7 +504,7 @@ class MatchUpReader:
 
         dates = zeros(times.shape[0], dtype=datetime)
         for i, time in enumerate(times):
-            dates[i] = datetime.fromtimestamp(int(time))
+            dates[i] = datetime(1970, 1, 1) + timedelta(seconds=int(time))
 
         return dates
 
-- 
2.43.0


From 9df69134b5b93008177650964f99cbabaf5bb3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 83/88] fix: Transform2NormInd: variables stand for the data
 also if the weights of a row do not sum to one

---
 .../matchupProcessing/transform2normind/Transform2NormInd.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 94214f7..aa35508 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -170,7 +170,7 @@ class Transform2NormInd:
                     if row_unencountered_cols_num == n_w:
                         # averaged values
                         for col in row_cols:
-                            MatchUpNormInd.values[istart_i+col] = MatchUpData.values[i_values] / u_matrix[col]
+                            MatchUpNormInd.values[istart_i+col] = MatchUpData.values[i_values] / sum(w_row) / u_matrix[col]
                             encountered_cols[col] = True
                         pass
 
-- 
2.43.0


From 31bbbd3abdea87b17c783c1e984b4f8996eb002a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 84/88] fix: Sample2Ind: uncertainties of structured covariates
 are of the columns averaged only

---
 .../core/matchup/matchupProcessing/sample2ind/Sample2Ind.py  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
index ad6769a..ea8583f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/sample2ind/Sample2Ind.py
@@ -186,9 +186,8 @@ class Sample2Ind:
                 w = MatchUpData.w_matrices[block_unc.w_i]
                 u = MatchUpData.u_matrices[block_unc.u_i]
                 for j, s_i in enumerate(s_idx):
-                    col_start = w.indices[w.indptr[s_i]]
-                    col_end = w.indices[w.indptr[s_i+1]-1]+1
-                    MatchUpSample.unc[i].uR[j] = npsum(u[col_start:col_end]**2)**0.5/(col_end-col_start)**0.5
+                    cols = w.indices[w.indptr[s_i]:w.indptr[s_i+1]]
+                    MatchUpSample.unc[i].uR[j] = npsum(u[cols]**2)**0.5/len(cols)**0.5
             else:
                 # If block error correlation form random or random and systematic simplify to random and sample
                 MatchUpSample.unc[i] = Uncertainty(1, deepcopy(block_unc.uR[s_idx]))
-- 
2.43.0


From 6ad498f839029162bf36452a09c68c49b4f3ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:10 +0000
Subject: [PATCH 85/88] fix: draw the comparison of calibrations with the
 parameters of each sensor

The parameters of a result may be listed in another order to those of the
match-up data (the order of the table of sensors), or be those of more
sensors; their sensors were not given to the plot.
---
 .../harmonisation/harmonisationVis/HarmonisationVis.py      | 6 +++++-
 .../harmonisation/tools/HarmonisationCompPlottingOp.py      | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
index 175fe32..2e4213e 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationVis/HarmonisationVis.py
@@ -252,12 +252,16 @@ class HarmonisationVis(MatchUpVis):
         MatchUpSim = MatchUpSimOp.run(self.MatchUpData, n_samples_mu=n_sim, verbose=verbose)
         return MatchUpSim
 
-    def plot_compare_calibration(self, directory, parameter_comparison, parameter_covariance_matrix_comparison, verbose=False):
+    def plot_compare_calibration(self, directory, parameter_comparison, parameter_covariance_matrix_comparison, verbose=False,
+                                 parameter_sensors_comparison=None):
 
         MatchUpSim = self.get_MatchUpSim(n_sim=20, verbose=verbose)
         measurand_1 = evaluate_measurand(MatchUpSim)
 
+        # the comparison parameters may be listed in another order to those of the match-up data
         MatchUpSim.a = parameter_comparison
+        if parameter_sensors_comparison is not None:
+            MatchUpSim.idx['parameter_sensor'] = list(parameter_sensors_comparison)
         measurand_2, u_measurand_cov_2 = evaluate_measurand(MatchUpSim,
                                                   parameter_covariance_matrix=parameter_covariance_matrix_comparison)
 
diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
index 30e8712..6b06d9c 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationCompPlottingOp.py
@@ -167,7 +167,8 @@ class HarmonisationComparisonPlottingOp:
 
         HarmVisOp = HarmonisationVis(MatchUpData, HarmResult)
         HarmVisOp.plot_compare_calibration(plots_dir, HarmResult.parameter,
-                                           HarmResult.parameter_covariance_matrix, verbose=verbose)
+                                           HarmResult.parameter_covariance_matrix, verbose=verbose,
+                                           parameter_sensors_comparison=HarmResult.parameter_sensors)
 
         print "\nPlots written to:", plots_dir
 
-- 
2.43.0


From 7bfa58a17c661fc2f93daef24a7d6df25c8d8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:36 +0000
Subject: [PATCH 86/88] fix: scale the derivatives of the compiled rescaled
 AVHRR models

The derivatives by the parameters were those by the unscaled parameters.
---
 .../sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx
index 8309d79..66860f5 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx
@@ -278,7 +278,7 @@ def sensor_model_3_scaled(np.ndarray[DTYPEf_t, ndim=2] sensor_model_variables,
                          at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                          -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                         at[1] * (Cs - Ce) / (Cs - Cict),
-                        Ja))
+                        Ja * np.array([1.0, 1.0e-3, 1.0e-6], dtype=np.float32)))
 
     return R, J
 
@@ -357,6 +357,6 @@ def sensor_model_4_scaled(np.ndarray[DTYPEf_t, ndim=2] sensor_model_variables,
                          -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                         at[1] * (Cs - Ce) / (Cs - Cict),
                         at[3] * ones(m, dtype=np.float32),
-                        Ja))
+                        Ja * np.array([1.0, 1.0e-3, 1.0e-6, 1.0e-3], dtype=np.float32)))
 
     return R, J
\ No newline at end of file
-- 
2.43.0


From bc271397c6835ebd93a2725e43bdea8b525c03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:12 +0000
Subject: [PATCH 87/88] fix: read the sensor data file asked for, not one of
 the same name read before

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 0e02c1b..61382c5 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -571,7 +571,13 @@ class MatchUpReader:
 
         sys.path.insert(0, directory_sensor_data)
 
-        sensor_data = import_module(fname_sensor_data).SENSOR_DATA
+        # Import this file, not one of the same name that has been imported from elsewhere before
+        imported = sys.modules.pop(fname_sensor_data, None)
+        try:
+            sensor_data = import_module(fname_sensor_data).SENSOR_DATA
+        finally:
+            if imported is not None:
+                sys.modules[fname_sensor_data] = imported
 
         return sensor_data
 
-- 
2.43.0


From 59f973a924e3774c33a6794a903487fd121212c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:12 +0000
Subject: [PATCH 88/88] fix: open the residuals of ten and more match-up series
 of the same sensors in their order

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 0928c61..581dd4d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -230,7 +230,8 @@ class HarmonisationResult:
 
         harm_res_path_rule = re.compile(r'harm.*_res_.*\.nc$')
 
-        for f in sorted(listdir(output_dir)):
+        # Numbers in file names sort by value, so that match-up series of the same sensors keep their order
+        for f in sorted(listdir(output_dir), key=lambda f: [int(s) if i % 2 else s for i, s in enumerate(re.split('([0-9]+)', f))]):
             if harm_res_path_rule.match(f) and f.startswith(harm_res_prefix):
                 harm_res_paths.append(pjoin(output_dir, f))
 
-- 
2.43.0

