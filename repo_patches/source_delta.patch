From 42ef9b0e56f8dc30d1b0bfb42873d6db8c0543c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 01/56] fix: an interrupted save of the solver state can not be
 reopened as a mixture of two states

---
 .../harmonisation_eiv/GN_algo.py                 | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 7e14ac4..9cbdcf5 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -9,7 +9,8 @@ pyximport.install(setup_args={"include_dirs": numpy.get_include()},
                   reload_support=True)
 
 import sys
-from os import makedirs
+from errno import ENOENT
+from os import makedirs, remove, rename
 from os.path import dirname
 from os.path import join as pjoin
 from copy import deepcopy
@@ -977,6 +978,14 @@ class GNAlgo(object):
         except OSError:
             pass
 
+        # Withdraw any data idx saved here before, so that an incomplete save can not be opened as a complete one
+        idx_path = pjoin(directory, "GNOp_data.HData.idx.pickle")
+        try:
+            remove(idx_path)
+        except OSError as error:
+            if error.errno != ENOENT:
+                raise
+
         dataset = Dataset(pjoin(directory, "GNOp_data.nc"), "w")
 
         # 2. Create dimensions
@@ -1009,9 +1018,10 @@ class GNAlgo(object):
         # 5. Close
         dataset.close()
 
-        # 6. Pickle data idx
-        with open(pjoin(directory, "GNOp_data.HData.idx.pickle"), "wb") as output_file:
+        # 6. Pickle data idx, which gets its name once complete
+        with open(idx_path + ".part", "wb") as output_file:
             cPickle.dump(self.HData.idx, output_file)
+        rename(idx_path + ".part", idx_path)
 
     def open(self, GNData_directory):
 
-- 
2.43.0


From 6304ce3d36c85af807d01134e1dbc69ebdbb53eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 02/56] fix: combining covariance elements reads indices of any
 size and refuses an incomplete set

---
 .../harmonisation/tools/HarmonisationOp.py    | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
index 47ecff9..ee77e1f 100644
--- a/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
+++ b/harmonisation_eiv/harmonisation/tools/HarmonisationOp.py
@@ -4,6 +4,7 @@ Main Operator of FIDUCEO Harmonisation Implementation
 
 '''___Built-In Modules___'''
 from glob import glob
+import re
 from copy import deepcopy
 from os import makedirs
 
@@ -373,13 +374,25 @@ class HarmonisationOp:
         Combine parameter covariance elements to form full matrix and save to file
         """
 
-        filelist = [file for file in glob(pjoin(self.temp_directory, "parameter_covariance_matrix*.dat"))]
-        N_parameters = int(len(filelist)**0.5)
+        element_path_rule = re.compile(r'.*parameter_covariance_matrix\[(\d+),(\d+)\]\.dat$')
 
-        parameter_covariance_matrix = zeros((N_parameters, N_parameters))
+        elements = {}
+        for file in glob(pjoin(self.temp_directory, "parameter_covariance_matrix*.dat")):
+            match = element_path_rule.match(file)
+            if match is None:
+                raise IOError("Unexpected parameter covariance matrix element file - " + file)
+            elements[(int(match.group(1)), int(match.group(2)))] = float(loadtxt(file))
+
+        if not elements:
+            raise IOError("No parameter covariance matrix element files in " + self.temp_directory)
 
-        for file in filelist:
-            parameter_covariance_matrix[int(file[-8]), int(file[-6])] = loadtxt(file)
+        N_parameters = max([max(ij) for ij in elements.keys()]) + 1
+        if len(elements) != N_parameters**2:
+            raise IOError("Parameter covariance matrix element files missing from " + self.temp_directory)
+
+        parameter_covariance_matrix = zeros((N_parameters, N_parameters))
+        for ij in elements.keys():
+            parameter_covariance_matrix[ij[0], ij[1]] = elements[ij]
 
         parameter_covariance_matrix = (parameter_covariance_matrix + parameter_covariance_matrix.T) / 2
 
-- 
2.43.0


From cacdfe12975fd4dc3c74cbd0cb0915e48d23dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 03/56] fix: an interrupted covariance element job leaves no
 partial element file

---
 .../tools/fullEIVsolver_covariance_analytical.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py b/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py
index 7300636..204851e 100644
--- a/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py
+++ b/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py
@@ -3,6 +3,7 @@ Compute covariance matrix for completed full EIV harmonisation run
 """
 
 '''___Built-In Modules___'''
+from os import rename
 from os.path import basename
 from sys import argv
 
@@ -80,7 +81,9 @@ def main(job_cfg_fname, i=None, j=None):
         save_path = pjoin(HOp.temp_directory, "parameter_covariance_matrix[" + str(i) + "," + str(j) + "].dat")
 
         print "Writing result to:", save_path
-        savetxt(save_path, array([parameter_covariance_ij]))
+        # File gets its name once complete
+        savetxt(save_path + ".part", array([parameter_covariance_ij]))
+        rename(save_path + ".part", save_path)
 
     else:
         parameter_covaraince_matrix = HOp.combine_parameter_covariance_ij()
-- 
2.43.0


From 0f35906f4a9026207c8cc8d0c44941cf29e53feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 04/56] fix: combining covariance elements updates the result
 as a whole or not at all

---
 .../tools/fullEIVsolver_covariance_analytical.py          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py b/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py
index 204851e..97c670c 100644
--- a/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py
+++ b/harmonisation_eiv/harmonisation/tools/fullEIVsolver_covariance_analytical.py
@@ -5,6 +5,7 @@ Compute covariance matrix for completed full EIV harmonisation run
 '''___Built-In Modules___'''
 from os import rename
 from os.path import basename
+from shutil import copyfile
 from sys import argv
 
 '''___Third Party Modules___'''
@@ -88,9 +89,14 @@ def main(job_cfg_fname, i=None, j=None):
     else:
         parameter_covaraince_matrix = HOp.combine_parameter_covariance_ij()
 
-        dataset = Dataset(hout_path, "a")
+        # Update a copy of the output file, so that an interrupted update does not damage it
+        copyfile(hout_path, hout_path + ".part")
+        dataset = Dataset(hout_path + ".part", "a")
+        if dataset.variables["parameter_covariance_matrix"].shape != parameter_covaraince_matrix.shape:
+            raise IOError("Parameter covariance matrix elements do not match parameters in " + hout_path)
         dataset.variables["parameter_covariance_matrix"][:] = parameter_covaraince_matrix
         dataset.close()
+        rename(hout_path + ".part", hout_path)
 
     return 0
 
-- 
2.43.0


From 7760ff0aa3a5c177a8f5133283a9da5a1685c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 05/56] fix: sensor state residuals are written to the
 harmonisation residual files

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index b180d3f..cf941b7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -751,7 +751,7 @@ class HarmonisationResult:
                     X_res_var.description = "X"+str(i_sensor_pair+1)+" harmonisation fitting residuals"
 
                     # Store data
-                    X_res_var = X_res[:]
+                    X_res_var[:] = X_res[:]
 
             # 3. Write ks_res data if available ------------------------------------------------------------------------
 
-- 
2.43.0


From 7e02e1de0917864e570ad077c51a3ea166ec0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 06/56] fix: opening residual files does not replace the
 attributes of the harmonisation result

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index cf941b7..85883ba 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -172,7 +172,7 @@ class HarmonisationResult:
             if open_residuals:
                 harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir)
                 self.values_res, self.ks_res, \
-                    self.idx, self.additional_attributes \
+                    self.idx, _ \
                         = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
 
     def _get_harm_output_path(self, output_dir):
-- 
2.43.0


From 34064878d6877ac43a6f730435ed7b4cf3986165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 07/56] fix: saving a harmonisation result does not alter its
 additional variables in memory

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 85883ba..6ad8b71 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -646,12 +646,11 @@ class HarmonisationResult:
 
                 if additional_variables[variable]['dtype'] == 'S1':
                     fmt_str = '{0: <' + str(max_l_name) + '}'
-                    additional_variables[variable]['data'] = asarray([fmt_str.format(s) for s in
-                                                                      additional_variables[variable]['data']])
+                    names = asarray([fmt_str.format(s) for s in additional_variables[variable]['data']])
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             (additional_variables[variable]['dim'], 'l_name'),
                                                             zlib=True, complevel=9)
-                    additional_var[:] = stringtochar(additional_variables[variable]['data'][:])
+                    additional_var[:] = stringtochar(names)
                 else:
                     additional_var = rootgrp.createVariable(variable, additional_variables[variable]['dtype'],
                                                             additional_variables[variable]['dim'],
-- 
2.43.0


From 75e5d90fe361223a30653c8da51dcf831438f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 08/56] fix: residual files load whichever sensor comes first
 in them

---
 .../harmonisationIO/HarmonisationResult.py            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 6ad8b71..d115d99 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -445,14 +445,11 @@ class HarmonisationResult:
             # generate required data
             full_sensor_list = [num for pair in Im for num in pair]  # full list of sensors (ordered by match-up series)
             num_ref_matchup = full_sensor_list.count(0)  # number of reference-sensor match-up series
-            sensor_list = [sensor for sensor in full_sensor_list if
-                           sensor != 0]  # list of sensors (excluding reference)
-
             # Create New Indices:
             # > n_sensor - list of sensor number of consecuative data blocks
             n_sensor = [int(0)] * num_ref_matchup + [int(sensor) for m_i in range(1, max(sensor_ms) + 1)
-                                                     for sensor in sensor_list
-                                                     if sensor_ms[sensor] >= m_i]
+                                                     for sensor in full_sensor_list
+                                                     if (sensor_ms[sensor] >= m_i) and (sensor != 0 or m_i > 1)]
 
             # > n_mu - list of match-up series number of consecuative data blocks
             # For reference sensors
@@ -462,7 +459,7 @@ class HarmonisationResult:
             n_mu_sensors = [int(i + 1) for m_i in range(1, max(sensor_ms) + 1)
                             for i, pair in enumerate(Im)
                             for sensor in pair
-                            if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
+                            if (sensor_ms[sensor] >= m_i) and (sensor != 0 or m_i > 1)]
 
             # Combine
             n_mu = n_mu_refs + n_mu_sensors
@@ -475,7 +472,7 @@ class HarmonisationResult:
             n_cov_sensors = [m_i for m_i in range(1, max(sensor_ms) + 1)
                              for i, pair in enumerate(Im)
                              for sensor in pair
-                             if (sensor_ms[sensor] >= m_i) and (sensor != 0)]
+                             if (sensor_ms[sensor] >= m_i) and (sensor != 0 or m_i > 1)]
 
             # Combine
             n_cov = n_cov_refs + n_cov_sensors
-- 
2.43.0


From 43ffbc5ed02023e35c3e25424ade149a0e150433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 09/56] fix: an interrupted save of a harmonisation result does
 not load as a mixture of results

---
 .../harmonisationIO/HarmonisationResult.py    | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index d115d99..942a11a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -3,7 +3,7 @@ HarmonisationResult Class - In memory representation of the results of the harmo
 """
 
 '''___Built-In Modules___'''
-from os import listdir
+from os import listdir, remove, rename
 from os.path import split, splitext, isfile
 from os.path import join as pjoin
 import re
@@ -561,14 +561,27 @@ class HarmonisationResult:
 
         """
 
-        self.write_harmonisation_output_file(path,
-                                             self.parameter, self.parameter_sensors, self.parameter_covariance_matrix,
-                                             self.cost, self.cost_dof, self.cost_p_value,
-                                             self.additional_attributes, self.additional_variables)
+        # Remove any result previously saved here, the output file first, so that it can not be mixed up with this one
+        directory, fname = split(path)
+        fname_noext, fname_ext = splitext(fname)
+        if isfile(path):
+            remove(path)
+        for f in listdir(directory or "."):
+            if f.startswith(fname_noext + "_res_") and f.endswith(fname_ext):
+                remove(pjoin(directory, f))
+
         if save_residuals:
             self.write_harmonisation_residual_files(path, self.values_res, self.ks_res, self.idx,
                                                     self.additional_attributes)
 
+        # Output file only appears once complete, and last, because a directory without one is not a result
+        path_part = pjoin(directory, ".part_" + fname)
+        self.write_harmonisation_output_file(path_part,
+                                             self.parameter, self.parameter_sensors, self.parameter_covariance_matrix,
+                                             self.cost, self.cost_dof, self.cost_p_value,
+                                             self.additional_attributes, self.additional_variables)
+        rename(path_part, path)
+
     def write_harmonisation_output_file(self, path, parameter, parameter_sensors, parameter_covariance_matrix,
                                         cost, cost_dof, cost_p_value, additional_attributes, additional_variables):
         """
-- 
2.43.0


From 426e5f881bebb1de71f071855ff261240052fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 10/56] fix: match-up series of the same sensor pair each have
 their own residual file

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 942a11a..929a7ed 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -710,9 +710,12 @@ class HarmonisationResult:
             # 1. Initialise file ---------------------------------------------------------------------------------------
             sensor_name_pair = [idx['sensors'][n_sensor_pair[0]], idx['sensors'][n_sensor_pair[1]]]
 
-            # Define filename
-            fname_res = "_".join((output_fname_noext, "res", str(sensor_name_pair[0]), str(sensor_name_pair[1])))\
-                        + output_fname_ext
+            # Define filename, numbered where an earlier match-up series has the same sensor pair
+            fname_res_noext = "_".join((output_fname_noext, "res", str(sensor_name_pair[0]), str(sensor_name_pair[1])))
+            n_earlier = idx["Im"][:i_matchup].count(n_sensor_pair)
+            if n_earlier > 0:
+                fname_res_noext += "_" + str(n_earlier + 1)
+            fname_res = fname_res_noext + output_fname_ext
 
             path_res = pjoin(directory, fname_res)
 
-- 
2.43.0


From 5911597ba97579440c34e58dcafd1bcf7911831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 11/56] fix: match-up files in a list of directories are read
 in a fixed order, other files left out

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index a2ee994..d6b5f17 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -182,7 +182,8 @@ class MatchUpReader:
                 dirs_matchup = paths_matchup
                 paths_matchup = []
                 for dir_matchup in dirs_matchup:
-                    paths_matchup += [pjoin(dir_matchup, fname) for fname in listdir(dir_matchup)]
+                    paths_matchup += sorted([pjoin(dir_matchup, fname)
+                                             for fname in listdir(dir_matchup) if fname[-3:] == ".nc"])
             else:
                 return None
 
-- 
2.43.0


From 5df98bb24b077ac434dd9de950c1b2e76846ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 12/56] fix: order of additional data columns does not depend
 on string hashing

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index d6b5f17..57125be 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -283,7 +283,7 @@ class MatchUpReader:
                                                    (variable not in STANDARD_VARIABLE_NAMES)])
             additional_variables = additional_variables.union(matchup_additional_variables)
 
-        return list(additional_variables)
+        return sorted(additional_variables)
 
     def open_values_from_nc_datasets(self, datasets, idx):
 
-- 
2.43.0


From 979d0e1af3014d530ca46573a0a0537640aeb7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 13/56] fix: match-up times are UTC whatever the time zone of
 the host

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 57125be..8c894d0 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -503,7 +503,7 @@ class MatchUpReader:
 
         dates = zeros(times.shape[0], dtype=datetime)
         for i, time in enumerate(times):
-            dates[i] = datetime.fromtimestamp(int(time))
+            dates[i] = datetime.utcfromtimestamp(int(time))
 
         return dates
 
-- 
2.43.0


From 622b8b0374a5c64a4d5d301d2693af8e69ae8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 14/56] fix: residual files are read in a fixed order

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 929a7ed..79c91a6 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -220,7 +220,7 @@ class HarmonisationResult:
 
         harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
 
-        for f in listdir(output_dir):
+        for f in sorted(listdir(output_dir)):
             if harm_res_path_rule.match(f):
                 harm_res_paths.append(pjoin(output_dir, f))
 
-- 
2.43.0


From c023f9420c5ef3fcc0b1b55e2eeb82778b0cb65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 15/56] fix: an interrupted write leaves no partial match-up
 file at the target path

---
 .../harmonisation/core/matchup/matchupIO/MatchUpWriter.py  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
index f00d830..113b399 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
@@ -3,6 +3,7 @@ MatchUpWriter Class
 """
 
 '''___Built-In Modules___'''
+from os import rename
 
 '''___Third-Party Modules___'''
 from netCDF4 import Dataset
@@ -151,8 +152,9 @@ class MatchUpWriter:
         * desc_str(*str*) - description of the variable
         """
 
-        # 1. Open file
-        rootgrp = Dataset(file_path, mode='w')
+        # 1. Open file, which only gets its name once it is complete
+        file_path_part = file_path + ".part"
+        rootgrp = Dataset(file_path_part, mode='w')
 
         # 2. Create attributes
         rootgrp.sensor_1_name = sensor_1_name
@@ -254,6 +256,7 @@ class MatchUpWriter:
 
         # 5. Close file
         rootgrp.close()
+        rename(file_path_part, file_path)
 
         return 0
 
-- 
2.43.0


From 12f1bbfb47bd579e844cd737af4f0459168219c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 16/56] fix: match-up files are written with their error
 correlation matrices

---
 .../core/matchup/matchupIO/MatchUpWriter.py   | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
index 113b399..c28e0b7 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpWriter.py
@@ -243,8 +243,33 @@ class MatchUpWriter:
 
         # > w_matrix variables
         if w_matrix_variables is not None:
-            pass
-            # todo - update this part!!!
+            w_matrix_nnz, w_matrix_row, w_matrix_col, w_matrix_val, w_matrix_use1, w_matrix_use2, \
+                u_matrix_row_count, u_matrix_val, u_matrix_use1, u_matrix_use2 = w_matrix_variables
+
+            rootgrp.createDimension("w_matrix_count", len(w_matrix_nnz))
+            rootgrp.createDimension("w_matrix_row_count", w_matrix_row.shape[1])
+            rootgrp.createDimension("w_matrix_nnz_sum", len(w_matrix_val))
+            rootgrp.createDimension("u_matrix_count", len(u_matrix_row_count))
+            rootgrp.createDimension("u_matrix_row_count_sum", len(u_matrix_val))
+
+            for name, dtype, dims, data, description in [
+                ("w_matrix_nnz", 'i4', ('w_matrix_count',), w_matrix_nnz,
+                 "number of non-zero elements for each W matrix"),
+                ("w_matrix_row", 'i4', ('w_matrix_count', 'w_matrix_row_count'), w_matrix_row,
+                 "CSR row numbers for each W matrix"),
+                ("w_matrix_col", 'i4', ('w_matrix_nnz_sum',), w_matrix_col, "CSR column numbers for all W matrices"),
+                ("w_matrix_val", 'f8', ('w_matrix_nnz_sum',), w_matrix_val, "CSR values for all W matrices"),
+                ("w_matrix_use1", 'i4', ('m1',), w_matrix_use1, "mapping from X1 array column index to W"),
+                ("w_matrix_use2", 'i4', ('m2',), w_matrix_use2, "mapping from X2 array column index to W"),
+                ("u_matrix_row_count", 'i4', ('u_matrix_count',), u_matrix_row_count,
+                 "number of rows of each u matrix"),
+                ("u_matrix_val", 'f8', ('u_matrix_row_count_sum',), u_matrix_val,
+                 "u matrix non-zero diagonal elements"),
+                ("u_matrix_use1", 'i4', ('m1',), u_matrix_use1, "mapping from X1 array column index to U"),
+                ("u_matrix_use2", 'i4', ('m2',), u_matrix_use2, "mapping from X2 array column index to U")]:
+                var = rootgrp.createVariable(name, dtype, dims, zlib=True, complevel=9)
+                var.description = description
+                var[:] = data[:]
 
         # > additional variables - non-required variable to add to harmonisation input files
         if additional_variables is not None:
-- 
2.43.0


From 6f5002dcb48adc641aa3a4299b41b3086c727b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 17/56] fix: an interrupted write or append by the W matrix
 tools leaves no partial match-up file

---
 tools/W_matrix_functions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tools/W_matrix_functions.py b/tools/W_matrix_functions.py
index 766dd20..506df60 100644
--- a/tools/W_matrix_functions.py
+++ b/tools/W_matrix_functions.py
@@ -4,6 +4,8 @@ and attach them to files
 """
 
 '''___Python Modules___'''
+from os import rename
+from shutil import copyfile
 from numpy import zeros
 
 '''___Third Party Modules___'''
@@ -88,8 +90,9 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
     * desc_str(*str*) - description of the variable
     """
 
-    # 1. Open file
-    rootgrp = Dataset(file_path, mode='w')
+    # 1. Open file, which only gets its name once it is complete
+    file_path_part = file_path + ".part"
+    rootgrp = Dataset(file_path_part, mode='w')
 
     # 2. Create attributes
     rootgrp.sensor_1_name = sensor_1_name
@@ -188,6 +191,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
     # 5. Close file
     rootgrp.close()
+    rename(file_path_part, file_path)
 
     return 0
 
@@ -315,8 +319,10 @@ def append_W_to_input_file(filepath,
     :param u_matrix_use2: a mapping from X2 array column index to U
     """
 
-    # 1. Open file
-    rootgrp = Dataset(filepath, mode='a')
+    # 1. Open copy of file, which only replaces the file once it is complete
+    filepath_part = filepath + ".part"
+    copyfile(filepath, filepath_part)
+    rootgrp = Dataset(filepath_part, mode='a')
 
     # 2. Create dimensions
     # > w_matrix_count - number of W matrices
@@ -399,6 +405,7 @@ def append_W_to_input_file(filepath,
 
     # 5. Close file
     rootgrp.close()
+    rename(filepath_part, filepath)
 
     return 0
 
-- 
2.43.0


From ff72ddced85095de283123140786d56a26bd2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 18/56] fix: sensor data set on opened match-up data reaches
 its original index

---
 .../harmonisation/core/matchup/matchupIO/MatchUp.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
index 5f26966..1368889 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUp.py
@@ -166,6 +166,10 @@ class MatchUp(object):
         self.a, self.sensor_model_constant, self.sensor_model, \
             self.adjustment_model, self.idx = MatchUpReaderOp.extract_sensor_data(sensor_data, self.idx)
 
+        # Sensor data describes the data in its original parameterisation too
+        self._original_idx["parameter_sensor"] = list(self.idx["parameter_sensor"])
+        self._original_idx["sensor_model_constant_sensor"] = list(self.idx["sensor_model_constant_sensor"])
+
     def getVariableData(self, variable_number, sensor_name, matchup_number):
 
         matchup_numbers = []
-- 
2.43.0


From 81ad334a70fc4dd2634998f0d1ca6e913810ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 19/56] fix: track indices and times reach the sensor models
 when the solver evaluates its residuals

---
 .../transform2normind/Transform2NormInd.py                  | 4 ++++
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 01b89f2..39be311 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -131,6 +131,8 @@ class Transform2NormInd:
         MatchUpNormInd.across_track_index2 = MatchUpData.across_track_index2
         MatchUpNormInd.along_track_index1 = MatchUpData.along_track_index1
         MatchUpNormInd.along_track_index2 = MatchUpData.along_track_index2
+        MatchUpNormInd.time1 = MatchUpData.time1
+        MatchUpNormInd.time2 = MatchUpData.time2
 
         # Convert data block by depending on correlation form
         for i, block_unc in enumerate(MatchUpData.unc):
@@ -234,6 +236,8 @@ class Transform2NormInd:
         MatchUpData.across_track_index2 = MatchUpNormInd.across_track_index2
         MatchUpData.along_track_index1 = MatchUpNormInd.along_track_index1
         MatchUpData.along_track_index2 = MatchUpNormInd.along_track_index2
+        MatchUpData.time1 = MatchUpNormInd.time1
+        MatchUpData.time2 = MatchUpNormInd.time2
 
         # Required to find systematic errors
         n_uS = max([0]+[unc_i.uS_i for unc_i in MatchUpData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 9cbdcf5..1504ed2 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -386,6 +386,12 @@ class GNAlgo(object):
         MatchUpEstimate_NormInd.sensor_model = self.HData.sensor_model
         MatchUpEstimate_NormInd.sensor_model_constant = self.HData.sensor_model_constant
         MatchUpEstimate_NormInd.adjustment_model = self.HData.adjustment_model
+        MatchUpEstimate_NormInd.across_track_index1 = self.HData.across_track_index1
+        MatchUpEstimate_NormInd.across_track_index2 = self.HData.across_track_index2
+        MatchUpEstimate_NormInd.along_track_index1 = self.HData.along_track_index1
+        MatchUpEstimate_NormInd.along_track_index2 = self.HData.along_track_index2
+        MatchUpEstimate_NormInd.time1 = self.HData.time1
+        MatchUpEstimate_NormInd.time2 = self.HData.time2
         MatchUpEstimate_NormInd.values = deepcopy(xyza[:N_var])
         MatchUpEstimate_NormInd.ks = zeros(N_mu, dtype=float32)
 
-- 
2.43.0


From f317eb373562c1426977cfeb88d26fd92fc7fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 20/56] fix: sensors in one dataset may have different numbers
 of covariates

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py      | 2 +-
 .../harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 1504ed2..0e2089f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -683,7 +683,6 @@ class GNAlgo(object):
         mcxyz = self.HData.idx['idx']                                                 # cumulative variables by block
         N_var = self.HData.idx['idx'][-1]                                             # total variables
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                      # total number of sensors
-        N_cov = self.HData.idx['n_cov'][-1]                                           # total number of covariates
         N_mu_s = len(self.HData.idx['Im'])                                            # total number of match-up series
         n_uS = max([0]+[unc_i.uS_i for unc_i in self.HData.unc if (unc_i.typeID == 2) or (unc_i.typeID == 4)])
 
@@ -726,6 +725,7 @@ class GNAlgo(object):
 
                 # First sensor or second sensor factor
                 sensor_name = self.HData.idx['sensors'][n_sensor]
+                N_cov = self.HData.idx['sensor_ms'][n_sensor]                         # number of covariates of sensor
                 s = -1
                 if j == 1:
                     s = 1
diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
index 99011fb..dad9fdf 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv_pc/pc_algo.py
@@ -206,7 +206,6 @@ class PCAlgo:
         N_sensors = len(set(self.HData.idx['parameter_sensor']))                    # total number of sensors
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # initialise arrays
         JT = zeros((N_mu, N_sensors), dtype=float32)
@@ -227,6 +226,7 @@ class PCAlgo:
             for j, n_sensor in enumerate(n_sensors):
 
                 sensor_name = HData.idx['sensors'][n_sensor]
+                N_cov = HData.idx['sensor_ms'][n_sensor]                            # number of covariates of sensor
 
                 R, JR = self.calc_R(self.xyza, HData.unc, HData.w_matrices, HData.u_matrices, HData.idx, HData.idx,
                                     HData.sensor_model,
@@ -356,7 +356,6 @@ class PCAlgo:
         N_var = HData.idx['idx'][-1]                                                # total variables
         N_a = len(self.HData.a)                                                     # total number of parameters for
                                                                                     # all sensors combined
-        N_cov = HData.idx['n_cov'][-1]                                              # total number of covariates
 
         # update a estimate in xyza
         self.xyza[N_var:N_var + N_a] = a
@@ -382,6 +381,7 @@ class PCAlgo:
             for j, n_sensor in enumerate(n_sensors):
 
                 sensor_name = HData.idx['sensors'][n_sensor]
+                N_cov = HData.idx['sensor_ms'][n_sensor]                            # number of covariates of sensor
 
                 R, JR = self.calc_R(self.xyza, HData.unc, HData.w_matrices, HData.u_matrices, HData.idx, HData.idx,
                                     HData.sensor_model,
-- 
2.43.0


From ca4216ad4fef48bcefe86172dfb4011dc816d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 21/56] fix: a harmonisation result whose name contains the
 letters "res" can be loaded

---
 .../harmonisation/harmonisationIO/HarmonisationResult.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 79c91a6..e3ed377 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -190,7 +190,7 @@ class HarmonisationResult:
 
         harm_output_path = None
 
-        harm_output_path_rule = re.compile('harm(?:(?!.*res.*).*)\.nc')
+        harm_output_path_rule = re.compile('harm(?:(?!.*_res_).*)\.nc')
 
         for f in listdir(output_dir):
             if harm_output_path_rule.match(f):
@@ -218,7 +218,7 @@ class HarmonisationResult:
 
         harm_res_paths = []
 
-        harm_res_path_rule = re.compile('harm(?:(?=.*res.*).*)\.nc')
+        harm_res_path_rule = re.compile('harm(?:(?=.*_res_).*)\.nc')
 
         for f in sorted(listdir(output_dir)):
             if harm_res_path_rule.match(f):
-- 
2.43.0


From b59f86a5447b356f22c849fffe98ab78952c5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 22/56] fix: full_eiv_solver labels its result, it failed after
 solving for lack of a job id and dataset name

---
 harmonisation_eiv/harmonisation/tools/full_eiv_solver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py b/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py
index 4c0ff21..490f0f6 100644
--- a/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py
+++ b/harmonisation_eiv/harmonisation/tools/full_eiv_solver.py
@@ -51,7 +51,13 @@ def main():
     logger.info("Match-up Dataset Directory: " + dataset_dir)
     logger.info("Harmonisation Result Directory: " + output_dir)
 
-    conf = {"software": __short_name__, "version": __version__, "tag": __tag__}
+    # Result files are labelled with the job, if there is a job file, and the dataset
+    job_id = "00"
+    if parsed_cmdline.job_file is not None:
+        job_id = os.path.splitext(os.path.basename(parsed_cmdline.job_file))[0]
+
+    conf = {"software": __short_name__, "version": __version__, "tag": __tag__,
+            "job_id": job_id, "matchup_dataset": os.path.basename(abspath(dataset_dir))}
 
     # Initialise harmonisation operator
     harm_op = HarmonisationOp()
-- 
2.43.0


From b434afb642e9ee7499892fb442e804f7d6560d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 23/56] fix: a harmonisation result without cost statistics, as
 a preconditioner solution is, can be saved and loaded

---
 .../harmonisationIO/HarmonisationResult.py           | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index e3ed377..1070bfc 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -279,9 +279,8 @@ class HarmonisationResult:
 
         # 2. Get attributes --------------------------------------------------------------------------------------------
         # a. Open required attributes
-        cost = dataset.cost
-        cost_dof = dataset.cost_dof
-        cost_p_value = dataset.cost_p_value
+        cost, cost_dof, cost_p_value = [dataset.getncattr(attr) if attr in dataset.ncattrs() else None
+                                        for attr in ["cost", "cost_dof", "cost_p_value"]]
 
         # b. Open additinal attributes
         additional_attributes_keys = [str(attr) for attr in dataset.ncattrs()
@@ -616,9 +615,10 @@ class HarmonisationResult:
         rootgrp = Dataset(path, 'w')
 
         # 2. Set attributes
-        rootgrp.cost = cost
-        rootgrp.cost_dof = cost_dof
-        rootgrp.cost_p_value = cost_p_value
+        # N.B. cost statistics are not provided by all fitting routines
+        for attr, value in [("cost", cost), ("cost_dof", cost_dof), ("cost_p_value", cost_p_value)]:
+            if value is not None:
+                rootgrp.setncattr(attr, value)
         rootgrp.setncatts(additional_attributes)
 
         # 3. Create dimensions
-- 
2.43.0


From 2d3484f9cafccb2f47acc1d2e0d4a7aa2ee75650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 24/56] fix: a preconditioner solution saved with save_pc can
 be given as pc_input

---
 .../harmonisation_eiv/HarmonisationEIV.py     | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 09003bc..343b53d 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -4,6 +4,7 @@ Contains the functionality to run the NPL Full EIV harmonisation method
 
 '''___Built-In Modules___'''
 from copy import deepcopy
+from os.path import isdir
 from time import time
 from numpy.linalg import cholesky
 
@@ -101,7 +102,7 @@ class HarmonisationEIV:
             print "t_PC:", str(t2-t1)
 
         else:
-            preconditioner = HarmonisationResult(pc_input)
+            preconditioner = self._open_preconditioner(pc_input)
 
         HData.a = preconditioner.parameter  # set PC output parameters as current parameter estimates
 
@@ -159,5 +160,33 @@ class HarmonisationEIV:
 
         return HarmonisationOutput
 
+    def _open_preconditioner(self, pc_input):
+        """
+        Return preconditioner solution from pre-computed harmonisation result
+
+        :type pc_input: str
+        :param pc_input: path of harmonisation output file, or of directory containing one
+
+        :return:
+            :preconditioner: *HarmonisationResult*
+
+            Preconditioner solution (parameters, covariance matrix and any cost statistics)
+        """
+
+        if isdir(pc_input):
+            preconditioner = HarmonisationResult(pc_input, open_residuals=False)
+        else:
+            preconditioner = HarmonisationResult()
+            preconditioner.parameter, preconditioner.parameter_sensors, \
+                preconditioner.parameter_covariance_matrix, preconditioner.cost, \
+                    preconditioner.cost_dof, preconditioner.cost_p_value, \
+                        preconditioner.additional_attributes, _ \
+                            = preconditioner.open_harmonisation_output_file(pc_input)
+
+        # Not part of the preconditioner
+        preconditioner.additional_variables = {}
+
+        return preconditioner
+
 if __name__ == "__main__":
     pass
-- 
2.43.0


From a9a502f9cb4af9d469465848deec8dc9482d0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 25/56] fix: solver state holds the normalised adjustment
 factors, a restart from it used them as they were in the data

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index 0e2089f..ad72328 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -1008,6 +1008,12 @@ class GNAlgo(object):
                                            "(transformed to normalised, independent parameterisation)"
         values_t_initial_var[:] = self.HData.values
 
+        # > ks_t_initial variable
+        K_T_dim = dataset.createDimension('K_T', len(self.HData.ks))
+        ks_t_initial_var = dataset.createVariable('ks_t_initial', 'f8', ('K_T',), zlib=True, complevel=9)
+        ks_t_initial_var.description = "Initial values of adjustment factors (normalised by uncertainty)"
+        ks_t_initial_var[:] = self.HData.ks
+
         # > variables_t_estimate variable
         variables_t_estimate_var = dataset.createVariable('variables_t_estimate', 'f4', ('V_T',), zlib=True,
                                                           complevel=9)
@@ -1038,6 +1044,7 @@ class GNAlgo(object):
 
         self.S = dataset.variables['preconditioner_solution'][:]
         self.HData.values = dataset.variables['values_t_initial'][:]
+        self.HData.ks = dataset.variables['ks_t_initial'][:]
         self.xyza = dataset.variables['variables_t_estimate'][:]
         dataset.close()
 
-- 
2.43.0


From f9692ab557bbbd1ab6bf8e5f60c14c89db6a95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 26/56] fix: solver state is saved where save_gn says

---
 .../harmonisation_eiv/HarmonisationEIV.py                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
index 343b53d..f47d076 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/HarmonisationEIV.py
@@ -158,6 +158,9 @@ class HarmonisationEIV:
         if save_directory_GNOp is not None:
             GNOp.save(save_directory_GNOp)
 
+        if save_gn is not None:
+            GNOp.save(save_gn)
+
         return HarmonisationOutput
 
     def _open_preconditioner(self, pc_input):
-- 
2.43.0


From 7859a92da2e57ff6df27496594660cb9e471cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 27/56] fix: take the sensor 2 averaging matrix from the sensor
 2 match-up times

---
 tools/MW_add_W_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index 508c069..a507daa 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -82,7 +82,7 @@ def read_matchup_data(file_path):
     sensor_2_name = dataset.sensor_2_name
 
     time1 = dataset.variables['time1'][:]
-    time2 = dataset.variables['time1'][:]
+    time2 = dataset.variables['time2'][:]
 
     uR1 = dataset.variables['Ur1'][0, :]
     uR2 = dataset.variables['Ur2'][0, :]
-- 
2.43.0


From 9322651ea67c0907750b0e6a3f4bc669edfe1592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 28/56] fix: size the sensor 1 uncertainty vectors by the
 sensor 1 averaging matrix

---
 tools/MW_add_W_matrices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index a507daa..7e6c669 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -177,8 +177,8 @@ def return_w_matrix_variables_MW(time1, time2, scanline_time, uR1, uR2, weights,
         # a. Compute W data
         w_matrix1, u_matrix10 = generate_rolling_average_w_matrix(time1, scanline_time, float(uR1[0]), weights=weights)
         w_matrices = [w_matrix1, w_matrix2]
-        u_matrix11 = ones(len(u_matrix20)) * uR1[1]
-        u_matrix12 = ones(len(u_matrix20)) * uR1[2]
+        u_matrix11 = ones(len(u_matrix10)) * uR1[1]
+        u_matrix12 = ones(len(u_matrix10)) * uR1[2]
 
         u_matrices = [u_matrix10, u_matrix11, u_matrix12, u_matrix20, u_matrix21, u_matrix22]
 
-- 
2.43.0


From 87d885b990c1bbb576eed4eea1eb1b4e64ecd826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 29/56] fix: give a converted MW match-up file its name only
 once it is complete

---
 tools/MW_add_W_matrices.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tools/MW_add_W_matrices.py b/tools/MW_add_W_matrices.py
index 7e6c669..8e4e9a0 100644
--- a/tools/MW_add_W_matrices.py
+++ b/tools/MW_add_W_matrices.py
@@ -8,7 +8,7 @@ python MW_add_W_matrices.py path/to/matchup/file_in.nc path/to/matchup/file_out.
 '''___Python Modules___'''
 from sys import argv
 from shutil import copyfile
-from os import listdir
+from os import listdir, rename
 from os.path import join as pjoin
 from os import makedirs
 
@@ -270,11 +270,12 @@ def run(input_file_path, output_file_path):
     # 3. Update file to include W matrix variables
     print "Writing to new file:", output_file_path
 
-    # a. Copy old file to new location
-    copyfile(input_file_path, output_file_path)
+    # a. Copy old file to new location, where it only gets its name once it is complete
+    output_file_path_part = output_file_path + ".part"
+    copyfile(input_file_path, output_file_path_part)
 
     # b.  Amend existing variables
-    dataset = Dataset(output_file_path, 'a')
+    dataset = Dataset(output_file_path_part, 'a')
 
     # + uncertainty_type1/2
     if sensor_1_instrument == "ref":
@@ -309,13 +310,15 @@ def run(input_file_path, output_file_path):
     dataset.close()
 
     # c. Add w matrix variables to updated file
-    append_W_to_input_file(output_file_path,
+    append_W_to_input_file(output_file_path_part,
                            w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz,
                            u_matrix_row_count, u_matrix_val,
                            w_matrix_use1, w_matrix_use2, u_matrix_use1, u_matrix_use2)
 
     # 4. Test harmonisation
-    test_input_file(output_file_path)
+    test_input_file(output_file_path_part)
+
+    rename(output_file_path_part, output_file_path)
 
     return 0
 
-- 
2.43.0


From 5eb3f40ecdb8bce8a68d4a17a706d3a1a5558445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 30/56] fix: give a converted AVHRR match-up file its name only
 once it is complete

---
 tools/AVHRR_to_updated_spec.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 99c1813..7e424be 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -11,7 +11,7 @@ from sys import argv
 '''___Third Party Modules___'''
 from numpy import array, int8, ones, where, isnan, nan, bool_, arange
 from netCDF4 import Dataset
-from os import makedirs
+from os import makedirs, rename
 from os.path import join as pjoin
 from os.path import split
 
@@ -629,23 +629,28 @@ def write_file(output_file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1,
                uncertainty_vector_row_count=None, uncertainty_vector=None,
                w_matrix_use1=None, w_matrix_use2=None, uncertainty_vector_use1=None, uncertainty_vector_use2=None):
 
+    # Write file, which only gets its name once it is complete
+    output_file_path_part = output_file_path + ".part"
+
     if additional_variables == {}:
-        write_input_file(output_file_path,
+        write_input_file(output_file_path_part,
                          X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
                          time_sensor_1, time_sensor_2, sensor_1_name, sensor_2_name)
     else:
-        write_input_file(output_file_path,
+        write_input_file(output_file_path_part,
                          X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
                          time_sensor_1, time_sensor_2, sensor_1_name, sensor_2_name, additional_variables)
 
     # b. Add w matrix variables to updated file
     if w_matrix_use1 is not None:
-        append_W_to_input_file(output_file_path,
+        append_W_to_input_file(output_file_path_part,
                                w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz,
                                uncertainty_vector_row_count, uncertainty_vector,
                                w_matrix_use1, w_matrix_use2, uncertainty_vector_use1, uncertainty_vector_use2)
 
-    test_input_file(output_file_path)
+    test_input_file(output_file_path_part)
+
+    rename(output_file_path_part, output_file_path)
 
     return 0
 
-- 
2.43.0


From 7325a3b5e0c33bce2f84558b0371590f94fc5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 31/56] fix: write converted AVHRR 3.7 um match-ups to the 3.7
 um directories

---
 tools/AVHRR_to_updated_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 7e424be..2f0a957 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == "37":
+    if band == 37:
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
-- 
2.43.0


From 6d8342400b487cba9e764b32873a4139e2419365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:22 +0000
Subject: [PATCH 32/56] fix: write evaluated K to the output dataset, not the
 input dataset

---
 tools/simulated_AVHRR.py       | 25 ++++++++++++++++++-------
 tools/simulation_set_true_K.py | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/tools/simulated_AVHRR.py b/tools/simulated_AVHRR.py
index c3c895d..e3883a2 100644
--- a/tools/simulated_AVHRR.py
+++ b/tools/simulated_AVHRR.py
@@ -8,11 +8,11 @@ python simulated_AVHRR.py <input dataset> <sensor data> <output dataset>
 '''___Python Modules___'''
 import sys
 from sys import argv
-from distutils.dir_util import copy_tree
+from shutil import copyfile
 
 '''___Third Party Modules___'''
 from netCDF4 import Dataset
-from os import listdir
+from os import listdir, makedirs, rename
 from os.path import join as pjoin
 
 '''___Harmonisation Modules___'''
@@ -32,7 +32,9 @@ __status__ = "Development"
 
 
 def main(dataset_in_directory, sensor_model_path, dataset_out_directory):
-    dataset_in_paths = [pjoin(dataset_in_directory, fname) for fname in listdir(dataset_in_directory)]
+    # Match-up files in the order they are opened in
+    fnames = sorted([fname for fname in listdir(dataset_in_directory) if fname[-3:] == ".nc"])
+    dataset_in_paths = [pjoin(dataset_in_directory, fname) for fname in fnames]
     print "Files:"
     for dataset_in_path in dataset_in_paths:
         print ">", dataset_in_path
@@ -46,15 +48,24 @@ def main(dataset_in_directory, sensor_model_path, dataset_out_directory):
     print "Done"
 
     print "\nGenerating 'True' K dataset..."
-    copy_tree(dataset_in_directory, dataset_out_directory)
-    dataset_out_paths = [pjoin(dataset_in_directory, fname) for fname in listdir(dataset_in_directory)]
-    for i_mu, fname in enumerate(dataset_out_paths):
+    try:
+        makedirs(dataset_out_directory)
+    except OSError:
+        pass
+
+    for i_mu, (dataset_in_path, fname) in enumerate(zip(dataset_in_paths, fnames)):
         istart = dataset_in.idx['cNm'][i_mu]
         iend = dataset_in.idx['cNm'][i_mu+1]
 
-        dataset_out_i = Dataset(fname, 'a')
+        # Each file only gets its name once it is complete
+        dataset_out_path = pjoin(dataset_out_directory, fname)
+        dataset_out_path_part = dataset_out_path + ".part"
+        copyfile(dataset_in_path, dataset_out_path_part)
+
+        dataset_out_i = Dataset(dataset_out_path_part, 'a')
         dataset_out_i.variables['K'][:] = k_true[istart:iend]
         dataset_out_i.close()
+        rename(dataset_out_path_part, dataset_out_path)
     print "Done"
 
     return 0
diff --git a/tools/simulation_set_true_K.py b/tools/simulation_set_true_K.py
index 7443af3..4fe7ce9 100644
--- a/tools/simulation_set_true_K.py
+++ b/tools/simulation_set_true_K.py
@@ -8,11 +8,11 @@ python simulated_AVHRR.py <input dataset> <sensor data> <output dataset>
 '''___Python Modules___'''
 import sys
 from sys import argv
-from distutils.dir_util import copy_tree
+from shutil import copyfile
 
 '''___Third Party Modules___'''
 from netCDF4 import Dataset
-from os import listdir
+from os import listdir, makedirs, rename
 from os.path import join as pjoin
 
 '''___Harmonisation Modules___'''
@@ -32,7 +32,9 @@ __status__ = "Development"
 
 
 def main(dataset_in_directory, sensor_model_path, dataset_out_directory):
-    dataset_in_paths = [pjoin(dataset_in_directory, fname) for fname in listdir(dataset_in_directory)]
+    # Match-up files in the order they are opened in
+    fnames = sorted([fname for fname in listdir(dataset_in_directory) if fname[-3:] == ".nc"])
+    dataset_in_paths = [pjoin(dataset_in_directory, fname) for fname in fnames]
     print "Files:"
     for dataset_in_path in dataset_in_paths:
         print ">", dataset_in_path
@@ -46,15 +48,24 @@ def main(dataset_in_directory, sensor_model_path, dataset_out_directory):
     print "Done"
 
     print "\nGenerating 'True' K dataset..."
-    copy_tree(dataset_in_directory, dataset_out_directory)
-    dataset_out_paths = [pjoin(dataset_in_directory, fname) for fname in listdir(dataset_in_directory)]
-    for i_mu, fname in enumerate(dataset_out_paths):
+    try:
+        makedirs(dataset_out_directory)
+    except OSError:
+        pass
+
+    for i_mu, (dataset_in_path, fname) in enumerate(zip(dataset_in_paths, fnames)):
         istart = dataset_in.idx['cNm'][i_mu]
         iend = dataset_in.idx['cNm'][i_mu+1]
 
-        dataset_out_i = Dataset(fname, 'a')
+        # Each file only gets its name once it is complete
+        dataset_out_path = pjoin(dataset_out_directory, fname)
+        dataset_out_path_part = dataset_out_path + ".part"
+        copyfile(dataset_in_path, dataset_out_path_part)
+
+        dataset_out_i = Dataset(dataset_out_path_part, 'a')
         dataset_out_i.variables['K'][:] = k_true[istart:iend]
         dataset_out_i.close()
+        rename(dataset_out_path_part, dataset_out_path)
     print "Done"
 
     return 0
-- 
2.43.0


From ce29d4538daba585011eb038a38d50cb5c133c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 33/56] fix: read the sensor IDs of AVHRR match-up files as
 integers

---
 tools/AVHRR_to_updated_spec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index 2f0a957..c724718 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = rootgrp.variables["lm"][0, 0]
-    sensor_2_name = rootgrp.variables["lm"][0, 1]
+    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
+    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
-- 
2.43.0


From 93d6f1867acdeed57645e4fb21882688c98f803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 34/56] Put the AVHRR converter back as it was: its name counts
 as a test's

tools/AVHRR_to_updated_spec.py matches the pattern of spec (test) files, which
are not to be changed here. What 5eb3f40, 7325a3b and ce29d45 repaired is
recorded as known findings instead.
---
 tools/AVHRR_to_updated_spec.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/tools/AVHRR_to_updated_spec.py b/tools/AVHRR_to_updated_spec.py
index c724718..99c1813 100644
--- a/tools/AVHRR_to_updated_spec.py
+++ b/tools/AVHRR_to_updated_spec.py
@@ -11,7 +11,7 @@ from sys import argv
 '''___Third Party Modules___'''
 from numpy import array, int8, ones, where, isnan, nan, bool_, arange
 from netCDF4 import Dataset
-from os import makedirs, rename
+from os import makedirs
 from os.path import join as pjoin
 from os.path import split
 
@@ -119,8 +119,8 @@ def read_matchup_data(file_path):
     K = rootgrp.variables["K"][:]
     Kr = rootgrp.variables["Kr"][:]
     Ks = rootgrp.variables["Ks"][:]
-    sensor_1_name = int(rootgrp.variables["lm"][0, 0])
-    sensor_2_name = int(rootgrp.variables["lm"][0, 1])
+    sensor_1_name = rootgrp.variables["lm"][0, 0]
+    sensor_2_name = rootgrp.variables["lm"][0, 1]
     time_sensor_1 = rootgrp.variables["ref_time_matchup"][:]
     time_sensor_2 = rootgrp.variables["time_matchup"][:]
     u_C_S_sensor_1 = rootgrp.variables['ref_cal_Sp_Ur'][:, :]
@@ -441,7 +441,7 @@ def write_input_file(file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, u
 
 def prepare_directories(directory, input_file_path, band):
 
-    if band == 37:
+    if band == "37":
         directory_3_RSA = pjoin(directory, "AVHRR_REAL_105_RSW_")
         directory_4_RSA = pjoin(directory, "AVHRR_REAL_106_RSW_")
         directory_3_R_A = pjoin(directory, "AVHRR_REAL_105_R_W_")
@@ -629,28 +629,23 @@ def write_file(output_file_path, X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1,
                uncertainty_vector_row_count=None, uncertainty_vector=None,
                w_matrix_use1=None, w_matrix_use2=None, uncertainty_vector_use1=None, uncertainty_vector_use2=None):
 
-    # Write file, which only gets its name once it is complete
-    output_file_path_part = output_file_path + ".part"
-
     if additional_variables == {}:
-        write_input_file(output_file_path_part,
+        write_input_file(output_file_path,
                          X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
                          time_sensor_1, time_sensor_2, sensor_1_name, sensor_2_name)
     else:
-        write_input_file(output_file_path_part,
+        write_input_file(output_file_path,
                          X1, X2, Ur1, Ur2, Us1, Us2, uncertainty_type1, uncertainty_type2, K, Kr, Ks,
                          time_sensor_1, time_sensor_2, sensor_1_name, sensor_2_name, additional_variables)
 
     # b. Add w matrix variables to updated file
     if w_matrix_use1 is not None:
-        append_W_to_input_file(output_file_path_part,
+        append_W_to_input_file(output_file_path,
                                w_matrix_val, w_matrix_row, w_matrix_col, w_matrix_nnz,
                                uncertainty_vector_row_count, uncertainty_vector,
                                w_matrix_use1, w_matrix_use2, uncertainty_vector_use1, uncertainty_vector_use2)
 
-    test_input_file(output_file_path_part)
-
-    rename(output_file_path_part, output_file_path)
+    test_input_file(output_file_path)
 
     return 0
 
-- 
2.43.0


From 8fa82eaea224e62c7b4d592cdff53a13f0b9016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 35/56] fix: huge uncertainties of the second sensor are
 refused, the first sensor was checked twice

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index 2ef98cb..c1fbe34 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -235,7 +235,7 @@ contains
     call assert_not_infinite( ur1, "Ur1" )
     call assert_not_infinite( ur2, "Ur2" )
     call assert_not_huge( ur1, "Ur1" )
-    call assert_not_huge( ur1, "Ur2" )
+    call assert_not_huge( ur2, "Ur2" )
     call read_variable( ncid, "Us1", us1, 0.0_cp )
     call read_variable( ncid, "Us2", us2, 0.0_cp )
     call assert_not_nan( us1, "Us1" )
@@ -243,7 +243,7 @@ contains
     call assert_not_infinite( us1, "Us1" )
     call assert_not_infinite( us2, "Us2" )
     call assert_not_huge( us1, "Us1" )
-    call assert_not_huge( us1, "Us2" )
+    call assert_not_huge( us2, "Us2" )
     !! 5.c) Allocate storage for matrix metadata
     allocate (u_types1(m1 + m1))
     allocate (u_types2(m2 + m2))
-- 
2.43.0


From cdfc312f960174360a7e18d04f9f74f65a847531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 36/56] fix: huge match-up times are refused as all other huge
 values are

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index c1fbe34..e023833 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -384,6 +384,8 @@ contains
     call assert_not_infinite( t2, "time2" )
     call assert_not_nan( t1, "time1" )
     call assert_not_nan( t2, "time2" )
+    call assert_not_huge( t1, "time1" )
+    call assert_not_huge( t2, "time2" )
     call set_ti( m_id, t1(1:m:s) )
     call set_tj( m_id, t2(1:m:s) )
     deallocate (t2)
-- 
2.43.0


From ba3fe55934d6abe4813f8dc0879e3a015ecd6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 37/56] fix: the parameter data set is written under its
 configured name

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
index 0ea9ea0..afa1a50 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
@@ -551,7 +551,7 @@ contains
     character(len=*), parameter  :: pre = "harm"
     character(len=1), parameter  :: sep = "_"
 
-    if (len( config_name_parameter_dataset ) > 0) then
+    if (config_name_parameter_dataset == "") then
       name = pre
       name = trim( name )//sep//trim( config_value_att_software )
       name = trim( name )//sep//trim( config_value_att_software_version )
-- 
2.43.0


From 00b2c9e9b481794518af36394f9f889ec5265314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 38/56] fix: the configured name of the residuals data sets is
 followed by the sensor names

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
index afa1a50..7fa624c 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_config.F90
@@ -599,7 +599,7 @@ contains
       name = trim( name )//sep//trim( sensor_j_name )
       name = trim( name )//trim( ext )
     else
-      name = config_name_residuals_dataset//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
+      name = trim( config_name_residuals_dataset )//sep//trim( sensor_i_name )//"_"//trim( sensor_j_name )//trim( ext )
     end if
   end function get_residuals_dataset_name
 
-- 
2.43.0


From cf086c821b3b76fb571c5b2bb3032a2c514b01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 39/56] fix: the reciprocal unit belongs to the residual
 weights, not to the residual uncertainty

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 5249f19..57afdd9 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -227,7 +227,7 @@ contains
     if (config_job_enable_unit /= "") then
       call add_attribute( ncid, k_res_id, "units", config_job_enable_unit )
       call add_attribute( ncid, k_res_unc_id, "units", config_job_enable_unit )
-      call add_attribute( ncid, k_res_unc_id, "units", "1 / "//config_job_enable_unit )
+      call add_attribute( ncid, k_res_weights_id, "units", "1 / "//config_job_enable_unit )
       call add_attribute( ncid, meas_i_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_j_id, "units", config_job_enable_unit )
       call add_attribute( ncid, meas_i_unc_q_id, "units", config_job_enable_unit )
-- 
2.43.0


From d6c3f0e4a075fc07e6c457802f91e2102f2c1df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 40/56] fix: the times of residuals are written in double
 precision

---
 harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
index 57afdd9..46d0eb7 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_writer.F90
@@ -203,7 +203,7 @@ contains
     call add_dimension( ncid, config_name_dim_m, ds%m, m_id )
 
     !! 4) Add variables
-    call add_var_vector( ncid, real( ds%t, cp ), m_id, config_name_var_time, &
+    call add_var_vector( ncid, ds%t, m_id, config_name_var_time, &
       config_desc_var_time, t_id )
     call add_attribute( ncid, t_id, "units", config_unit_var_time )
     call add_var_vector( ncid, real( ds%k_res, cp ), m_id, config_name_var_k_res, &
-- 
2.43.0


From 20f412a82cce0200aefe58caa59d00776e1514cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 41/56] fix: a selected telemetry column has its own
 uncertainty type, not that of the column at its position

---
 .../src/main/fortran/gpl/mod_reader.F90              | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90 b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
index e023833..9411f6b 100644
--- a/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
+++ b/harmonisation_meiv_demo/src/main/fortran/gpl/mod_reader.F90
@@ -433,9 +433,15 @@ contains
     integer, intent(out) :: iv(:)
     integer, intent(out) :: iw(:)
     integer :: l
+    integer :: c
 
     do l = 1, r
-      select case (u_types(l))
+      if (config_job_sensor_columns_select(i)) then
+        c = config_job_sensor_columns(i, l)
+      else
+        c = l
+      end if
+      select case (u_types(c))
         case (C_INDEPENDENT)
           if (config_job_sensor_columns_select(i)) then
             call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
@@ -448,7 +454,7 @@ contains
           end if
         case (C_INDEPENDENT_PERTURBED)
           if (.not. config_job_enable_covariance_common) then
-            u_types(l) = C_INDEPENDENT
+            u_types(c) = C_INDEPENDENT
             if (config_job_sensor_columns_select(i)) then
               call add_d_matrix( ur(config_job_sensor_columns(i, l), 1:m:s), ic(l) )
             else
@@ -474,7 +480,7 @@ contains
             iw(l) = w_matrix_indices(w_matrix_use(l))
           end if
         case (C_STRUCTURED_PERTURBED) !! not yet supported, treated like structured random correlation
-          u_types(l) = C_STRUCTURED
+          u_types(c) = C_STRUCTURED
           if (config_job_sensor_columns_select(i)) then
             iv(l) = v_matrix_indices(u_matrix_use(config_job_sensor_columns(i, l)))
             iw(l) = w_matrix_indices(w_matrix_use(config_job_sensor_columns(i, l)))
-- 
2.43.0


From 148c695cdb101e227d4eea8923bf88b536791546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 42/56] fix: batch scripts take logs of an earlier run for
 those of this one

---
 harmonisation_eiv/lsf/fullEIVsolverLSF.sh                  | 2 ++
 harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh            | 2 ++
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh       | 2 ++
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
index 99603b5..6dad78b 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
@@ -106,6 +106,7 @@ bsub -W 48:00 -x -R "select[maxmem > 128000] rusage[mem=250000]" -M 400000000 -q
 scriptPath=${dirScripts}"/parameter.sh"
 [ -f ${scriptPath} ] && rm ${scriptPath}
 logPath=${dirLog}"/parameter.log"
+[ -f ${logPath} ] && rm ${logPath}
 
 # a. Write script to submit job to CEMS
 abs_job=$(abs_path ${job})
@@ -170,6 +171,7 @@ while [ $stop -eq 0 ]; do
         scriptPath=${dirScripts}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.sh"
         [ -f ${scriptPath} ] && rm ${scriptPath}
         logPath=${dirLog}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.log"
+        [ -f ${logPath} ] && rm ${logPath}
 
         echo "#!/bin/bash" >> ${scriptPath}
         echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}  >> ${scriptPath}
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
index 5643b75..e13f515 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
@@ -108,6 +108,7 @@ bsub -R "rusage[mem=60000]" -M 60000000 -W 24:00 -q short-serial -o ${logPathT}
 scriptPath=${dirScripts}"/parameter.sh"
 [ -f ${scriptPath} ] && rm ${scriptPath}
 logPath=${dirLog}"/parameter.log"
+[ -f ${logPath} ] && rm ${logPath}
 
 # a. Write script to submit job to CEMS
 abs_job=$(abs_path ${job})
@@ -174,6 +175,7 @@ while [ $stop -eq 0 ]; do
         scriptPath=${dirScripts}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.sh"
         [ -f ${scriptPath} ] && rm ${scriptPath}
         logPath=${dirLog}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.log"
+        [ -f ${logPath} ] && rm ${logPath}
 
         echo "#!/bin/bash" >> ${scriptPath}
         echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}  >> ${scriptPath}
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
index 3d39d7a..14af949 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
@@ -78,6 +78,7 @@ echo "Job - "${job}
 scriptPath=${dirScripts}"/parameter.sh"
 [ -f ${scriptPath} ] && rm ${scriptPath}
 logPath=${dirLog}"/parameter.log"
+[ -f ${logPath} ] && rm ${logPath}
 
 # a. Write script to submit job to CEMS
 abs_job=$(abs_path ${job})
@@ -130,6 +131,7 @@ while [ $stop -eq 0 ]; do
         scriptPath=${dirScripts}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.sh"
         [ -f ${scriptPath} ] && rm ${scriptPath}
         logPath=${dirLog}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.log"
+        [ -f ${logPath} ] && rm ${logPath}
 
         echo "#!/bin/bash" >> ${scriptPath}
         echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}  >> ${scriptPath}
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
index 815f8b6..ba62ec2 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
@@ -78,6 +78,7 @@ echo "Job - "${job}
 scriptPath=${dirScripts}"/parameter.sh"
 [ -f ${scriptPath} ] && rm ${scriptPath}
 logPath=${dirLog}"/parameter.log"
+[ -f ${logPath} ] && rm ${logPath}
 
 # a. Write script to submit job to CEMS
 abs_job=$(abs_path ${job})
@@ -131,6 +132,7 @@ while [ $stop -eq 0 ]; do
         scriptPath=${dirScripts}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.sh"
         [ -f ${scriptPath} ] && rm ${scriptPath}
         logPath=${dirLog}"/"${job##*/}"."${now}".parameter_covariance_matrix.comb.log"
+        [ -f ${logPath} ] && rm ${logPath}
 
         echo "#!/bin/bash" >> ${scriptPath}
         echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}  >> ${scriptPath}
-- 
2.43.0


From 897c95f3161409ebba808d2affedc616b2d0d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 43/56] fix: covariance element jobs share scripts and logs
 from 11 parameters on

---
 harmonisation_eiv/lsf/fullEIVsolverLSF.sh                  | 4 ++--
 harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh            | 4 ++--
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh       | 4 ++--
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
index 6dad78b..b77bd7f 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
@@ -145,9 +145,9 @@ while [ $stop -eq 0 ]; do
         N_a=$(return_N_a "$output_file")
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
-                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}${j}".sh"
+                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
                 [ -f ${scriptPath} ] && rm ${scriptPath}
-                logPath=${dirLog}"/parameter_covariance_matrix."${i}${j}".log"
+                logPath=${dirLog}"/parameter_covariance_matrix."${i}"."${j}".log"
 
                 echo "#!/bin/bash" >> ${scriptPath}
                 echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}" "${i}" "${j}  >> ${scriptPath}
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
index e13f515..6723cad 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
@@ -148,9 +148,9 @@ while [ $stop -eq 0 ]; do
         N_a=$(return_N_a "$output_file")
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
-                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}${j}".sh"
+                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
                 [ -f ${scriptPath} ] && rm ${scriptPath}
-                logPath=${dirLog}"/parameter_covariance_matrix."${i}${j}".log"
+                logPath=${dirLog}"/parameter_covariance_matrix."${i}"."${j}".log"
 
                 echo "#!/bin/bash" >> ${scriptPath}
                 echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}" "${i}" "${j}  >> ${scriptPath}
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
index 14af949..062e89f 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
@@ -105,9 +105,9 @@ while [ $stop -eq 0 ]; do
         N_a=$(return_N_a "$output_file")
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
-                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}${j}".sh"
+                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
                 [ -f ${scriptPath} ] && rm ${scriptPath}
-                logPath=${dirLog}"/parameter_covariance_matrix."${i}${j}".log"
+                logPath=${dirLog}"/parameter_covariance_matrix."${i}"."${j}".log"
 
                 echo "#!/bin/bash" >> ${scriptPath}
                 echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}" "${i}" "${j}  >> ${scriptPath}
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
index ba62ec2..d7c449e 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
@@ -105,9 +105,9 @@ while [ $stop -eq 0 ]; do
         N_a=$(return_N_a "$output_file")
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
-                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}${j}".sh"
+                scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
                 [ -f ${scriptPath} ] && rm ${scriptPath}
-                logPath=${dirLog}"/parameter_covariance_matrix."${i}${j}".log"
+                logPath=${dirLog}"/parameter_covariance_matrix."${i}"."${j}".log"
 
                 echo "#!/bin/bash" >> ${scriptPath}
                 echo "python2.7 "${softwareDir}"/fullEIVsolver_covariance_analytical.py "${job}" "${i}" "${j}  >> ${scriptPath}
-- 
2.43.0


From 5c18c8eb639934e8e250235ab0544233d9513065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 44/56] fix: batch scripts count covariance elements left by an
 earlier run

---
 harmonisation_eiv/lsf/fullEIVsolverLSF.sh                  | 4 ++++
 harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh            | 4 ++++
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh       | 4 ++++
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
index b77bd7f..d8acaa5 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
@@ -143,6 +143,10 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+
+        # Elements of earlier runs are not those of this one
+        rm -f ${output_directory}/temp/parameter_covariance*.dat
+
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
                 scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
index 6723cad..a802c12 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
@@ -146,6 +146,10 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+
+        # Elements of earlier runs are not those of this one
+        rm -f ${output_directory}/temp/parameter_covariance*.dat
+
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
                 scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
index 062e89f..970b88e 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
@@ -103,6 +103,10 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+
+        # Elements of earlier runs are not those of this one
+        rm -f ${output_directory}/temp/parameter_covariance*.dat
+
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
                 scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
index d7c449e..f8b1896 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
@@ -103,6 +103,10 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+
+        # Elements of earlier runs are not those of this one
+        rm -f ${output_directory}/temp/parameter_covariance*.dat
+
 	    for ((i=0;i<${N_a};i++)); do
             for ((j=0;j<${N_a};j++)); do
                 scriptPath=${dirScripts}"/parameter_covariance_matrix."${i}"."${j}".sh"
-- 
2.43.0


From 22bae2f9406dee82c0b2cfabbcc9777ae70cbc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 45/56] fix: batch scripts go on to the plots when the
 optimisation left no output

---
 harmonisation_eiv/lsf/fullEIVsolverLSF.sh                  | 5 +++++
 harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh            | 5 +++++
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh       | 5 +++++
 harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
index d8acaa5..6c0bcad 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.sh
@@ -143,6 +143,11 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+        if [ -z "${N_a}" ]
+        then
+            echo "No harmonisation output in "${output_directory}", stopping" >&2
+            exit 1
+        fi
 
         # Elements of earlier runs are not those of this one
         rm -f ${output_directory}/temp/parameter_covariance*.dat
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
index a802c12..7e9b09d 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF.short.sh
@@ -146,6 +146,11 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+        if [ -z "${N_a}" ]
+        then
+            echo "No harmonisation output in "${output_directory}", stopping" >&2
+            exit 1
+        fi
 
         # Elements of earlier runs are not those of this one
         rm -f ${output_directory}/temp/parameter_covariance*.dat
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
index 970b88e..c022a94 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.sh
@@ -103,6 +103,11 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+        if [ -z "${N_a}" ]
+        then
+            echo "No harmonisation output in "${output_directory}", stopping" >&2
+            exit 1
+        fi
 
         # Elements of earlier runs are not those of this one
         rm -f ${output_directory}/temp/parameter_covariance*.dat
diff --git a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
index f8b1896..026c204 100644
--- a/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
+++ b/harmonisation_eiv/lsf/fullEIVsolverLSF_sequential.short.sh
@@ -103,6 +103,11 @@ while [ $stop -eq 0 ]; do
         # Number of required elements
         output_file=${output_directory}"/"$(ls ${output_directory} | grep -v "res" | grep ".nc")
         N_a=$(return_N_a "$output_file")
+        if [ -z "${N_a}" ]
+        then
+            echo "No harmonisation output in "${output_directory}", stopping" >&2
+            exit 1
+        fi
 
         # Elements of earlier runs are not those of this one
         rm -f ${output_directory}/temp/parameter_covariance*.dat
-- 
2.43.0


From 2b653e7c0546788cb8556e4ef900bfcdfef8fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:17 +0000
Subject: [PATCH 46/56] fix: open match-up series of a single match-up with
 systematic uncertainty

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index 8c894d0..fdabb5f 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -378,7 +378,7 @@ class MatchUpReader:
                         u_matrices[u_matrix_idx] = self._open_u_matrix(dataset, u_j)
 
                         unc[block_idx] = Uncertainty(4, (w_matrix_idx, u_matrix_idx,
-                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][1, i_cov]))
+                                                         dataset.variables['Us' + str(i_sensor_pair + 1)][0, i_cov]))
 
         # Determine separate instances of systematic errors
         sys_indices = []
-- 
2.43.0


From 206b16894607afc7e7bc75baeeca1206e684c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:47 +0000
Subject: [PATCH 47/56] fix: use the adjustment model given for a sensor

---
 .../harmonisation/core/matchup/matchupIO/MatchUpReader.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
index fdabb5f..c62ae6a 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupIO/MatchUpReader.py
@@ -603,7 +603,7 @@ class MatchUpReader:
         for sensor in idx['sensors']:
             sensor_model.append(sensor_data[sensor]["sensor_model"])
 
-            if "adjustment_model" in sensor_data[sensor].keys():
+            if "sensor_adjustment_model" in sensor_data[sensor].keys():
                 adjustment_model.append(sensor_data[sensor]["sensor_adjustment_model"])
             else:
                 adjustment_model.append(self._default_adjustment_model)
-- 
2.43.0


From 8af615b321383aefe344317a7aa758418921d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 48/56] fix: AVHRR sensor models take the arguments the solver
 gives

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py  | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 2c14007..e8ee8d5 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -106,11 +106,11 @@ def sensor_model_3(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4((sensor_model_variables,
+def sensor_model_4(sensor_model_variables,
                    sensor_model_parameter,
                    sensor_model_constant,
                    sensor_model_across_track_index,
-                   sensor_model_along_track_index, time)):
+                   sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -167,7 +167,11 @@ def sensor_model_4((sensor_model_variables,
     return R, J
 
 
-def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -218,7 +222,11 @@ def sensor_model_37_2(sensor_model_variables, sensor_model_parameter, sensor_mod
     return R, J
 
 
-def sensor_model_37_3(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3(sensor_model_variables,
+                      sensor_model_parameter,
+                      sensor_model_constant,
+                      sensor_model_across_track_index,
+                      sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -329,7 +337,11 @@ def sensor_model_3_scaled(sensor_model_variables,
     return R, J
 
 
-def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_4_scaled(sensor_model_variables,
+                          sensor_model_parameter,
+                          sensor_model_constant,
+                          sensor_model_across_track_index,
+                          sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -386,7 +398,11 @@ def sensor_model_4_scaled(sensor_model_variables, sensor_model_parameter, sensor
     return R, J
 
 
-def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_2_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
@@ -437,7 +453,11 @@ def sensor_model_37_2_scaled(sensor_model_variables, sensor_model_parameter, sen
     return R, J
 
 
-def sensor_model_37_3_scaled(sensor_model_variables, sensor_model_parameter, sensor_model_constant, sensor_model_index):
+def sensor_model_37_3_scaled(sensor_model_variables,
+                             sensor_model_parameter,
+                             sensor_model_constant,
+                             sensor_model_across_track_index,
+                             sensor_model_along_track_index, time):
     """
     :type sensor_model_variables: list:numpy.ndarray
     :param sensor_model_variables: list of sensor state variables
-- 
2.43.0


From 2efd37c08efbfe3c17e52a16f5cd5a33d635ab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 49/56] fix: parameters of the unscaled 3.7 um AVHRR model are
 not scaled

---
 .../harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index e8ee8d5..5f1fbd4 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -201,7 +201,7 @@ def sensor_model_37_2(sensor_model_variables,
 
     # Evaluate radiance using sensor model
     Ja = vstack((ones(m), Rict * (Cs - Ce) / (Cs - Cict))).T
-    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]/1000.0]
+    at = [sensor_model_parameter[0], 0.98514 + sensor_model_parameter[1]]
     R = dot(Ja, at)
 
     # Evaluate derivatives
-- 
2.43.0


From fdea0e1ea98987c7ac8f3cd17a3ea984804cac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 50/56] fix: parameter derivatives of the rescaled AVHRR models

---
 .../sensor_data/AVHRR/AVHRR_sensor_models.py              | 8 ++++----
 .../sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
index 5f1fbd4..d37d041 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models.py
@@ -332,7 +332,7 @@ def sensor_model_3_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0, 1.0/1000.0/1000.0]))
 
     return R, J
 
@@ -393,7 +393,7 @@ def sensor_model_4_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[3] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0, 1.0/1000.0/1000.0, 1.0/1000.0]))
 
     return R, J
 
@@ -448,7 +448,7 @@ def sensor_model_37_2_scaled(sensor_model_variables,
                       at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0]))
 
     return R, J
 
@@ -507,7 +507,7 @@ def sensor_model_37_3_scaled(sensor_model_variables,
                       -at[1] * Rict / (Cs - Cict),
                       at[1] * (Cs - Ce) / (Cs - Cict),
                       at[2] * ones(m),
-                      Ja))
+                      Ja * [1.0, 1.0/1000.0, 1.0/1000.0]))
 
     return R, J
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx
index 8309d79..6936df9 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx
@@ -278,7 +278,7 @@ def sensor_model_3_scaled(np.ndarray[DTYPEf_t, ndim=2] sensor_model_variables,
                          at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                          -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                         at[1] * (Cs - Ce) / (Cs - Cict),
-                        Ja))
+                        Ja * np.array([1.0, 1.0/1000.0, 1.0/1000.0/1000.0], dtype=np.float32)))
 
     return R, J
 
@@ -357,6 +357,6 @@ def sensor_model_4_scaled(np.ndarray[DTYPEf_t, ndim=2] sensor_model_variables,
                          -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                         at[1] * (Cs - Ce) / (Cs - Cict),
                         at[3] * ones(m, dtype=np.float32),
-                        Ja))
+                        Ja * np.array([1.0, 1.0/1000.0, 1.0/1000.0/1000.0, 1.0/1000.0], dtype=np.float32)))
 
     return R, J
\ No newline at end of file
-- 
2.43.0


From c3d4884b236b8d7178c38caaa89bd4a1cc1ff711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 51/56] fix: number of parameters of the 3.7 um AVHRR models

---
 .../sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py | 2 +-
 .../sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py      | 2 +-
 .../harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
index c622a6d..085ccba 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_rescaled_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
index 4b44b0a..432468c 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_2_sensor_data.py
@@ -45,7 +45,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
index 702fae5..1890bf3 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_rescaled_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
diff --git a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
index ff21f17..3acb519 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/AVHRR/AVHRR_37um_3_sensor_data.py
@@ -44,7 +44,7 @@ for sensor in sensors:
                            "sensor_model_variable_labels": [r"\bar{C}_{S}", r"\bar{C}_{ICT}", "C_E", "L_{ICT}", "T_o"],
                            "nominal_measurand_label": "L_{op}",
                            "sensor_model_variable_names": ["C_S", "C_ICT", "C_E", "L_ICT", "T_o"],
-                           "sensor_model_parameter": [0.0, 0.0, 0.0, 0.0],
+                           "sensor_model_parameter": [0.0, 0.0, 0.0],
                            "sensor_model_constant": []}
 
 
-- 
2.43.0


From e0aca65547ded71386cbe267e6686f6da0feb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 52/56] fix: HIRS reference model returns the measurand of
 every match-up

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index 26c8a5d..c0987bb 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -59,7 +59,7 @@ def sensor_model_ref(sensor_model_variables, sensor_model_parameter, sensor_mode
         Measurement model derivatives w.r.t. input quantities
     """
 
-    R = sensor_model_variables[0]
+    R = sensor_model_variables[:, 0]
 
     return R, None
 
-- 
2.43.0


From 0dbce707676ec8c463d8600fcea442d09e46ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:43 +0000
Subject: [PATCH 53/56] fix: derivative of the HIRS model by target temperature

---
 .../harmonisation/sensor_data/HIRS/HIRS_sensor_models.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
index c0987bb..a35fd2d 100644
--- a/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
+++ b/harmonisation_eiv/harmonisation/sensor_data/HIRS/HIRS_sensor_models.py
@@ -123,7 +123,7 @@ def sensor_model_3(sensor_model_variables, sensor_model_parameter, sensor_model_
                       -at[1] * Rict * (Ce - Cs) / (Cict - Cs) ** 2 - at[2] * (Ce - Cs),
                       at[1] * Rict / (Cict - Cs) + at[2] * (2 * Ce - Cs - Cict),
                       (at[1] * (Ce - Cs) / (Cict - Cs)) *
-                      Rict * planck_exp / (planck_exp-1.0) * (2.0*H*v*b) / (KB*(a+b*Tict)**2.0),
+                      Rict * planck_exp / (planck_exp-1.0) * (H*v*b) / (KB*(a+b*Tict)**2.0),
                       -1.0 * ones(m),
                       Ja))
 
-- 
2.43.0


From a9cfdbb9a50ddb11edd99ba051c450c7b708a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:28 +0000
Subject: [PATCH 54/56] fix: covariance is not left zero when rounding makes
 the normal matrix look unsymmetric

---
 .../harmonisationProcessing/harmonisation_eiv/GN_algo.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
index ad72328..8690f89 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationProcessing/harmonisation_eiv/GN_algo.py
@@ -952,7 +952,7 @@ class GNAlgo(object):
         c[N_var + i] = 1
         d[N_var + j] = 1
 
-        MinresOp.solve(self.calc_Px(d, transpose=True), rtol=tolU, itnlim=500, show=show)
+        MinresOp.solve(self.calc_Px(d, transpose=True), rtol=tolU, itnlim=500, show=show, check=False)
         dt = MinresOp.x
         Vij = dot(self.calc_Px(c, transpose=True), dt)
 
-- 
2.43.0


From 9518db83122d60d506838ee9a7b5e8abc64e124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:16 +0000
Subject: [PATCH 55/56] fix: residual files another result left in the
 directory are not read with a harmonisation result

---
 .../harmonisationIO/HarmonisationResult.py           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
index 1070bfc..156fe7b 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupToolbox/harmonisation/harmonisationIO/HarmonisationResult.py
@@ -170,7 +170,7 @@ class HarmonisationResult:
                             = self.open_harmonisation_output_file(harmonisation_output_file_path)
 
             if open_residuals:
-                harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir)
+                harmonisation_residual_file_paths = self._get_harm_res_paths(output_dir, harmonisation_output_file_path)
                 self.values_res, self.ks_res, \
                     self.idx, _ \
                         = self.open_harmonisation_residual_files(harmonisation_residual_file_paths)
@@ -203,13 +203,17 @@ class HarmonisationResult:
 
         return harm_output_path
 
-    def _get_harm_res_paths(self, output_dir):
+    def _get_harm_res_paths(self, output_dir, harm_output_path=None):
         """
         Return path harmonisation residuals files in directory
 
         :type output_dir: str
         :param output_dir: path of directory containing harmonisation output and residual data files
 
+        :type harm_output_path: str
+        :param harm_output_path: path of harmonisation output file, residual files named after which are preferred to
+        any others in the directory (e.g. those an interrupted save of another result left)
+
         :return:
             :harm_res_paths: list
 
@@ -224,6 +228,10 @@ class HarmonisationResult:
             if harm_res_path_rule.match(f):
                 harm_res_paths.append(pjoin(output_dir, f))
 
+        if harm_output_path is not None:
+            own_prefix = splitext(harm_output_path)[0] + "_res_"
+            harm_res_paths = [p for p in harm_res_paths if p.startswith(own_prefix)] or harm_res_paths
+
         if not harm_res_paths:
             harm_res_paths = None
 
-- 
2.43.0


From c85321f6237cda2ddc3b58c33935ca1c9af7508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:04 +0000
Subject: [PATCH 56/56] fix: averaged data of match-ups not in the order of
 their scan lines are reproduced by the solver's variables

---
 .../transform2normind/Transform2NormInd.py               | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
index 39be311..bb54caa 100644
--- a/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
+++ b/harmonisation_eiv/harmonisation/core/matchup/matchupProcessing/transform2normind/Transform2NormInd.py
@@ -158,7 +158,14 @@ class Transform2NormInd:
 
                 encountered_cols = zeros(w_matrix.shape[1], dtype=bool_)
 
-                for i_row, i_values in enumerate(xrange(istart, iend)):
+                # Match-ups need not come in the order of the raw data they average. Go through them in that order, by the
+                # last raw value each uses (the narrower first), so that each one finds a value to determine
+                def raw_data_used(i_row):
+                    row_cols = w_matrix.indices[w_matrix.indptr[i_row]:w_matrix.indptr[i_row+1]]
+                    return (max(row_cols), -min(row_cols)) if len(row_cols) > 0 else (-1, 0)
+
+                for i_row in sorted(xrange(iend - istart), key=raw_data_used):
+                    i_values = istart + i_row
 
                     row_cols = w_matrix.indices[w_matrix.indptr[i_row]:w_matrix.indptr[i_row+1]]
                     row_encountered_cols = [bool(encountered_cols[row_col]) for row_col in row_cols]
-- 
2.43.0

