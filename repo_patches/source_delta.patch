From eb70d1bac46e01080a30f37ff5f8fb024dca1022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:52 +0000
Subject: [PATCH 01/23] fix: pair the terminal voltages and currents voxel by
 voxel in the source power

---
 pypeec/lib_solver/problem_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index c1ade26..b9a2c38 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -214,6 +214,10 @@ def get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v):
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
         idx_src_tmp = np.flatnonzero(idx_src_tmp)
 
+        # sort by voxel indices (the terminal voltages and currents should match voxel by voxel)
+        idx_vc_tmp = idx_vc_tmp[np.argsort(idx_vc[idx_vc_tmp])]
+        idx_src_tmp = idx_src_tmp[np.argsort(idx_src[idx_src_tmp])]
+
         # assign the current and voltage
         source_idx[tag]["idx_vc"] = idx_vc_tmp
         source_idx[tag]["idx_src"] = idx_src_tmp
-- 
2.43.0


From e1b951b6a5a4611d86e81e5124adf109b7846fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 02/23] fix: report a failing Qt event loop (the exception was
 created but not raised)

---
 pypeec/lib_plot/manage_plotgui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_plot/manage_plotgui.py b/pypeec/lib_plot/manage_plotgui.py
index dbe571a..3255d0a 100644
--- a/pypeec/lib_plot/manage_plotgui.py
+++ b/pypeec/lib_plot/manage_plotgui.py
@@ -264,7 +264,7 @@ class PlotGui:
 
         # check status
         if exit_code != 0:
-            RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
+            raise RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
 
     def _show_figure_nb(self):
         """
-- 
2.43.0


From d2104a1c207304df75a93e55d5164899253b54eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 03/23] fix: reject invalid voxel size and number (the
 exceptions were created but not raised)

---
 pypeec/lib_mesher/mesher_shape.py | 4 ++--
 pypeec/lib_mesher/mesher_stl.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_shape.py b/pypeec/lib_mesher/mesher_shape.py
index 71b5f2f..a276f0c 100644
--- a/pypeec/lib_mesher/mesher_shape.py
+++ b/pypeec/lib_mesher/mesher_shape.py
@@ -395,10 +395,10 @@ def _get_voxel_size(dx, dy, dz, stack_pos, xy_max, xy_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index 8f9dfe2..fb60d56 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -134,10 +134,10 @@ def _get_voxel_size(d, xyz_max, xyz_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
-- 
2.43.0


From ef78016bae0df9ab401a960978705622612debb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 04/23] fix: do not modify the input coefficients in the
 inverse Fourier transform

---
 pypeec/utils/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 4248ee7..310b4da 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -51,6 +51,9 @@ def get_ifft(v_freq, n_time=None):
     The number of samples can be specified (undersampling/oversampling).
     """
 
+    # copy the coefficients (the input should not be modified)
+    v_freq = np.array(v_freq, dtype=np.complex128)
+
     # scale the DC coefficient
     v_freq[0] *= 2.0
 
-- 
2.43.0


From 38e31ad2c8b16bf78104eaf9d50c5d3c601061bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 05/23] fix: check the y index bounds with the y size in the
 index conversion

---
 pypeec/utils/voxel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/voxel.py b/pypeec/utils/voxel.py
index e98a7da..3ef7372 100644
--- a/pypeec/utils/voxel.py
+++ b/pypeec/utils/voxel.py
@@ -30,7 +30,7 @@ def get_idx_linear(n, idx_tensor):
     # check bounds
     if not (np.all(idx_x >= 0) and np.all(idx_x < nx)):
         raise ValueError("invalid index range (x coordinate)")
-    if not (np.all(idx_y >= 0) and np.all(idx_y < nx)):
+    if not (np.all(idx_y >= 0) and np.all(idx_y < ny)):
         raise ValueError("invalid index range (y coordinate)")
     if not (np.all(idx_z >= 0) and np.all(idx_z < nz)):
         raise ValueError("invalid index range (z coordinate)")
-- 
2.43.0


From 205941bab32d6388fa3091e13926b35a1128a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 06/23] fix: report failures of the GERBER conversion tools and
 always remove the project file

---
 pypeec/utils/gerber.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 894c75a..adc1adb 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -108,15 +108,15 @@ def _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling):
         border,
         resolution,
     )
-    subprocess.run(cmd, shell=True)
+    subprocess.run(cmd, shell=True, check=True)
 
     # cut the border
     cmd = "mogrify -trim %s" % filename_png
-    subprocess.run(cmd, shell=True)
+    subprocess.run(cmd, shell=True, check=True)
 
     # cut the border
     cmd = "mogrify -sample %.2f%% %s" % (resize, filename_png)
-    subprocess.run(cmd, shell=True)
+    subprocess.run(cmd, shell=True, check=True)
 
 
 def _get_convert_layer(tag, data_export, data_gerber, data_stack):
@@ -142,11 +142,11 @@ def _get_convert_layer(tag, data_export, data_gerber, data_stack):
     # get the project file with the GERBER files
     _get_gerbv_file(filename_gerbv, folder_gerber, data_gerber, data_stack)
 
-    # convert the project file into a PNG file
-    _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling)
-
-    # remove the project file
-    os.remove(filename_gerbv)
+    # convert the project file into a PNG file (and remove the project file)
+    try:
+        _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling)
+    finally:
+        os.remove(filename_gerbv)
 
 
 def get_convert(data_export, data_gerber, data_stack):
-- 
2.43.0


From e01c97c0fd93f2cdbdfd9da4e587abb6e25c2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:08 +0000
Subject: [PATCH 07/23] fix: stop the segregated solver after the maximum
 number of iterations (off by one)

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 8b51201..63f7965 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -404,7 +404,7 @@ def _get_solver_segregated(sol_init, fct_cpl, fct_sys, fct_pcd, rhs, segregated_
         status = status_c and status_m and status_res
 
         # check convergence
-        if (n_iter > n_max) or (status and (n_iter >= n_min)):
+        if (n_iter >= n_max) or (status and (n_iter >= n_min)):
             converged = True
 
     return status, sol_all
-- 
2.43.0


From c88f354ef9d10e8eb6dc017ce0077028065ea3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:36 +0000
Subject: [PATCH 08/23] fix: walk the sweep dependencies without recursion
 (deep warm-start chains)

---
 pypeec/lib_solver/sweep_joblib.py | 73 ++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/pypeec/lib_solver/sweep_joblib.py b/pypeec/lib_solver/sweep_joblib.py
index 565bb25..575617e 100644
--- a/pypeec/lib_solver/sweep_joblib.py
+++ b/pypeec/lib_solver/sweep_joblib.py
@@ -51,17 +51,21 @@ def _get_tree_check(sweep_tree, tag_init, init_list):
     """
     Check that the dependencies between the sweeps are solvable.
     Run through the tree from the root and gather the nodes.
+    The tree is walked without recursion (no limit for the tree depth).
     """
 
-    # find the sweeps to be computed
-    tag_sub = sweep_tree[tag_init]
+    # nodes to be visited
+    tag_stack = [tag_init]
 
-    # add the design to the computed design
-    init_list += tag_sub
+    while tag_stack:
+        # find the sweeps to be computed
+        tag_sub = sweep_tree[tag_stack.pop()]
 
-    # recursive call for the dependent sweeps
-    for tag_tmp in tag_sub:
-        init_list = _get_tree_check(sweep_tree, tag_tmp, init_list)
+        # add the design to the computed design
+        init_list += tag_sub
+
+        # visit the dependent sweeps
+        tag_stack += reversed(tag_sub)
 
     return init_list
 
@@ -104,38 +108,45 @@ def _get_tree_compute(parallel_sweep, sweep_tree, sweep_param, fct_compute, tag_
     """
     Compute the sweeps with the dependencies.
     This is done by walking through the graph from the root.
+    The tree is walked without recursion (no limit for the tree depth).
     """
 
-    # find the sweeps to be computed
-    tag_sub = sweep_tree[tag_init]
+    # nodes to be visited
+    tag_stack = [tag_init]
 
-    # find the dependency for the sweeps
-    if tag_init is None:
-        init_tmp = None
-    else:
-        init_tmp = init[tag_init]
+    while tag_stack:
+        # get the current node
+        tag_init = tag_stack.pop()
+
+        # find the sweeps to be computed
+        tag_sub = sweep_tree[tag_init]
+
+        # find the dependency for the sweeps
+        if tag_init is None:
+            init_tmp = None
+        else:
+            init_tmp = init[tag_init]
 
-    # get the input
-    data_sub = [sweep_param[tag_tmp] for tag_tmp in tag_sub]
-    init_sub = [init_tmp]*len(tag_sub)
+        # get the input
+        data_sub = [sweep_param[tag_tmp] for tag_tmp in tag_sub]
+        init_sub = [init_tmp]*len(tag_sub)
 
-    # return if there is nothing to compute
-    if not tag_sub:
-        return output, init
+        # continue if there is nothing to compute
+        if not tag_sub:
+            continue
 
-    # run the serial or parallel loop
-    arg_list = zip(tag_sub, data_sub, init_sub)
-    out_list = _get_parallel_loop(parallel_sweep, fct_compute, arg_list)
+        # run the serial or parallel loop
+        arg_list = zip(tag_sub, data_sub, init_sub)
+        out_list = _get_parallel_loop(parallel_sweep, fct_compute, arg_list)
 
-    # assemble the results
-    for tag_tmp, out_tmp in zip(tag_sub, out_list):
-        (output_tmp, sol_tmp) = out_tmp
-        output[tag_tmp] = output_tmp
-        init[tag_tmp] = sol_tmp
+        # assemble the results
+        for tag_tmp, out_tmp in zip(tag_sub, out_list):
+            (output_tmp, sol_tmp) = out_tmp
+            output[tag_tmp] = output_tmp
+            init[tag_tmp] = sol_tmp
 
-    # recursive call for the dependent sweeps
-    for tag_tmp in tag_sub:
-        (output, init) = _get_tree_compute(parallel_sweep, sweep_tree, sweep_param, fct_compute, tag_tmp, output, init)
+        # visit the dependent sweeps
+        tag_stack += reversed(tag_sub)
 
     return output, init
 
-- 
2.43.0


From 3fb232fb6c41a1c051c9b222214042b640ca7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:21 +0000
Subject: [PATCH 09/23] fix: accept empty equation systems with the GCROT
 solver (segregated solver without magnetic domains)

---
 pypeec/lib_matrix/matrix_iterative.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 1383a29..c4f24f3 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -6,6 +6,7 @@ __author__ = "Thomas Guillod"
 __copyright__ = "Thomas Guillod - Dartmouth College"
 __license__ = "Mozilla Public License Version 2.0"
 
+import numpy as np
 import scipy.sparse.linalg as sla
 
 
@@ -22,6 +23,10 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
     n_inner = iter_options["n_inner"]
     n_outer = iter_options["n_outer"]
 
+    # an empty system is trivially solved (not supported by GCROT)
+    if len(rhs) == 0:
+        return True, np.zeros(0, dtype=np.complex128)
+
     # call the solver
     if solver == "gmres":
         (sol, flag) = sla.gmres(
-- 
2.43.0


From 647f178a8626f99b396ada793916776c6164253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 10/23] fix: reproducible condition number estimation
 (independent of the global random state)

---
 pypeec/lib_matrix/matrix_condition.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_condition.py b/pypeec/lib_matrix/matrix_condition.py
index 8a088f8..5366f18 100644
--- a/pypeec/lib_matrix/matrix_condition.py
+++ b/pypeec/lib_matrix/matrix_condition.py
@@ -67,13 +67,20 @@ def _get_condition_matrix_sub(mat, norm_options):
     # get the inverse operator
     op = _get_inverse_operator(mat, decomposition)
 
-    # compute the norm of the matrix inverse (estimate)
-    LOGGER.debug("estimate norm of the inverse")
-    nrm_inv = sla.onenormest(op, t=t_accuracy, itmax=n_iter_max)
-
-    # compute the norm of the matrix (estimate)
-    LOGGER.debug("estimate norm of the matrix")
-    nrm_ori = sla.onenormest(mat, t=t_accuracy, itmax=n_iter_max)
+    # the norm estimator is using the global random state (use a fixed state to get reproducible estimates)
+    random_state = np.random.get_state()
+    try:
+        np.random.seed(0)
+
+        # compute the norm of the matrix inverse (estimate)
+        LOGGER.debug("estimate norm of the inverse")
+        nrm_inv = sla.onenormest(op, t=t_accuracy, itmax=n_iter_max)
+
+        # compute the norm of the matrix (estimate)
+        LOGGER.debug("estimate norm of the matrix")
+        nrm_ori = sla.onenormest(mat, t=t_accuracy, itmax=n_iter_max)
+    finally:
+        np.random.set_state(random_state)
 
     # compute an estimate of the condition
     LOGGER.debug("compute condition estimate")
-- 
2.43.0


From ffcf3ae16ece137f29376e01c4df47a3f25fae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 11/23] fix: accept undefined thread numbers for PARDISO
 (allowed by the schema)

---
 pypeec/lib_matrix/matrix_factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_factorization.py b/pypeec/lib_matrix/matrix_factorization.py
index c0181c6..28501d7 100644
--- a/pypeec/lib_matrix/matrix_factorization.py
+++ b/pypeec/lib_matrix/matrix_factorization.py
@@ -57,9 +57,9 @@ def _get_fact_pardiso(mat):
     thread_mkl = PARDISO_OPTIONS["thread_mkl"]
 
     # find the number of threads
-    if thread_pardiso < 0:
+    if thread_pardiso is not None and thread_pardiso < 0:
         thread_pardiso = os.cpu_count()+thread_pardiso+1
-    if thread_mkl < 0:
+    if thread_mkl is not None and thread_mkl < 0:
         thread_mkl = os.cpu_count()+thread_mkl+1
     if thread_pardiso == 0:
         thread_pardiso = 1
-- 
2.43.0


From 5f523ef287326541bdbee74990e6088fb8d6020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 12/23] fix: assign the losses of a voxel with an electric and
 a magnetic material only once

The losses of a voxel shared by an electric and a magnetic material were attributed
to both materials, such that the losses of the materials did not sum up to the total
losses.
---
 pypeec/lib_solver/problem_geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index b9a2c38..75ab6fe 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -176,10 +176,19 @@ def get_material_pos(material_idx, idx_vc, idx_vm):
     for tag, material_idx_tmp in material_idx.items():
         # extract the data
         idx = material_idx_tmp["idx"]
+        material_type = material_idx_tmp["material_type"]
+
+        # the voxels can also belong to a material of the other type
+        if material_type == "electric":
+            (idx_c, idx_m) = (idx, [])
+        elif material_type == "magnetic":
+            (idx_c, idx_m) = ([], idx)
+        else:
+            (idx_c, idx_m) = (idx, idx)
 
         # get the position of the material domain
-        idx_vc_tmp = np.in1d(idx_vc, idx)
-        idx_vm_tmp = np.in1d(idx_vm, idx)
+        idx_vc_tmp = np.in1d(idx_vc, idx_c)
+        idx_vm_tmp = np.in1d(idx_vm, idx_m)
 
         # find indices
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
-- 
2.43.0


From 83a2bb53a164b64b3418f44fddaf3487e4241af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 13/23] fix: remove the GERBER project file if its creation
 fails

---
 pypeec/utils/gerber.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index adc1adb..3a2a4b5 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -139,14 +139,13 @@ def _get_convert_layer(tag, data_export, data_gerber, data_stack):
     filename_gerbv = os.path.join(folder_png, "%s.gvp" % tag)
     filename_png = os.path.join(folder_png, "%s.png" % tag)
 
-    # get the project file with the GERBER files
-    _get_gerbv_file(filename_gerbv, folder_gerber, data_gerber, data_stack)
-
-    # convert the project file into a PNG file (and remove the project file)
+    # create and convert the project file into a PNG file (and remove the project file)
     try:
+        _get_gerbv_file(filename_gerbv, folder_gerber, data_gerber, data_stack)
         _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling)
     finally:
-        os.remove(filename_gerbv)
+        if os.path.isfile(filename_gerbv):
+            os.remove(filename_gerbv)
 
 
 def get_convert(data_export, data_gerber, data_stack):
-- 
2.43.0


From 9f51cbb88d3beb165e7c1a3a4b22e372b838b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 14/23] fix: quote the file names given to the GERBER tools

---
 pypeec/utils/gerber.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 3a2a4b5..355239c 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -22,6 +22,7 @@ __license__ = "Mozilla Public License Version 2.0"
 
 import os
 import os.path
+import shlex
 import subprocess
 
 
@@ -101,6 +102,10 @@ def _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling):
     resize = 100/oversampling
     border = 100*margin
 
+    # quote the file names for the shell
+    filename_gerbv = shlex.quote(filename_gerbv)
+    filename_png = shlex.quote(filename_png)
+
     # transform the GERBER files into a PNG file
     cmd = "gerbv -p %s -o %s -x png --border %d --dpi %d 2>/dev/null" % (
         filename_gerbv,
-- 
2.43.0


From ba60ec7c876cbe2f16cfcf1f91b99364f7088126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 15/23] fix: round the border of the GERBER images instead of
 truncating it

---
 pypeec/utils/gerber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 355239c..88dc21b 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -100,7 +100,7 @@ def _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling):
     # get the resolution and margin
     resolution = round(25.4e-3*oversampling/voxel)
     resize = 100/oversampling
-    border = 100*margin
+    border = round(100*margin)
 
     # quote the file names for the shell
     filename_gerbv = shlex.quote(filename_gerbv)
-- 
2.43.0


From 715e23d9fef6419fb76233be0fbc5aad1f1c2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 16/23] fix: reject STL files containing only degenerated
 triangles

---
 pypeec/lib_mesher/mesher_stl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index fb60d56..25294bc 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -32,8 +32,8 @@ def _get_load_stl(scale, offset, filename):
     except ValueError:
         raise RuntimeError("invalid stl: invalid file: %s" % filename) from None
 
-    # check that the file is valid
-    if mesh.n_cells == 0:
+    # check that the file is valid (degenerated triangles do not describe a surface)
+    if mesh.GetNumberOfPolys() == 0:
         raise RuntimeError("invalid stl: invalid file content: %s" % filename)
 
     # translate the meshes
-- 
2.43.0


From cec26357c0ad4198b4004d3aa9b15a3e68bf59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 17/23] fix: check the integrity of the PNG files

---
 pypeec/lib_mesher/mesher_png.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_png.py b/pypeec/lib_mesher/mesher_png.py
index da5bbb7..e57fc24 100644
--- a/pypeec/lib_mesher/mesher_png.py
+++ b/pypeec/lib_mesher/mesher_png.py
@@ -33,10 +33,12 @@ def _get_load_image(filename_list):
 
     # load the files
     for filename in filename_list:
-        # load the image
+        # load the image (after checking the integrity of the file)
         try:
+            with pmg.open(filename, formats=["png"]) as img:
+                img.verify()
             img = pmg.open(filename, formats=["png"])
-        except OSError:
+        except (OSError, SyntaxError):
             raise RuntimeError("invalid png: invalid file: %s" % filename) from None
 
         # cast to array
-- 
2.43.0


From 2b01c1f5a2bdb2ba9f9bd9331bef71015aa5ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 18/23] fix: enforce the minimum values of the integers (the
 schema validator skipped them)

---
 pypeec/lib_check/check_data_format.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypeec/lib_check/check_data_format.py b/pypeec/lib_check/check_data_format.py
index 0f3ecb4..335f1e9 100644
--- a/pypeec/lib_check/check_data_format.py
+++ b/pypeec/lib_check/check_data_format.py
@@ -52,6 +52,12 @@ def _get_strict_validator():
         else:
             return jsonschema.Draft202012Validator.TYPE_CHECKER.is_type(instance, "array")
 
+    def get_minimum(_, minimum, instance, schema):
+        # the default validator ignores the integers (as they are not strict floating numbers)
+        if get_int(None, instance) or get_float(None, instance):
+            if instance < minimum:
+                yield jsonschema.ValidationError("%r is less than the minimum of %r" % (instance, minimum))
+
     # custom type checker
     type_checker = jsonschema.Draft202012Validator.TYPE_CHECKER
     type_checker = type_checker.redefine("number", get_float)
@@ -61,6 +67,7 @@ def _get_strict_validator():
     # custom validator
     StrictValidator = jsonschema.validators.extend(
         jsonschema.Draft202012Validator,
+        validators={"minimum": get_minimum},
         type_checker=type_checker,
     )
 
-- 
2.43.0


From 64abbb6118762f88f3154ddbd3bc9d578435be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 19/23] fix: check the type of clip_plot (misspelled name in
 the schema)

---
 pypeec/data/schema_plot_pyvista.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/data/schema_plot_pyvista.yaml b/pypeec/data/schema_plot_pyvista.yaml
index df04f59..08292f6 100644
--- a/pypeec/data/schema_plot_pyvista.yaml
+++ b/pypeec/data/schema_plot_pyvista.yaml
@@ -12,7 +12,7 @@
             - "clip_axis"
             - "clip_value"
         "properties":
-            "plot_clip":
+            "clip_plot":
                 "type": "boolean"
             "clip_invert":
                 "type": "boolean"
-- 
2.43.0


From 25af0351f22500d0dec66419ae70a22479b409a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 20/23] fix: reject truncated binary STL files (the rest of the
 file can describe another closed surface)

---
 pypeec/lib_mesher/mesher_stl.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index 25294bc..118ff4d 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -26,6 +26,14 @@ def _get_load_stl(scale, offset, filename):
     Load several STL files and merge the meshes.
     """
 
+    # check that the file is complete (the number of triangles is declared in the binary files)
+    with open(filename, "rb") as fid:
+        content = fid.read()
+    if b"\0" in content:
+        n_tri = int.from_bytes(content[80:84], byteorder="little")
+        if len(content) < (84 + 50 * n_tri):
+            raise RuntimeError("invalid stl: truncated file: %s" % filename)
+
     # load the mesh
     try:
         mesh = pv.read(filename, force_ext=".stl")
-- 
2.43.0


From b1e373d652f2c90315e4febcee342a7911ee4016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 21/23] fix: reject voxels with several materials or sources
 (the solution was silently wrong)

---
 pypeec/lib_solver/problem_geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index 75ab6fe..7a35ff3 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -32,7 +32,7 @@ def _get_domain_indices(domain_list, domain_def):
     return idx_all
 
 
-def _check_indices(idx_vc, idx_src_c, idx_src_v):
+def _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v):
     """
     Check that the material and source indices are valid.
     The indices should be unique and compatible with the voxel size.
@@ -47,6 +47,15 @@ def _check_indices(idx_vc, idx_src_c, idx_src_v):
     if (len(idx_src_c) == 0) and (len(idx_src_v) == 0):
         raise RuntimeError("source indices cannot be empty")
 
+    # check that the indices are unique
+    idx_src = np.concatenate((idx_src_c, idx_src_v))
+    if not (len(np.unique(idx_vc)) == len(idx_vc)):
+        raise RuntimeError("electric indices should be unique")
+    if not (len(np.unique(idx_vm)) == len(idx_vm)):
+        raise RuntimeError("magnetic indices should be unique")
+    if not (len(np.unique(idx_src)) == len(idx_src)):
+        raise RuntimeError("source indices should be unique")
+
     # check that the terminal indices are electric indices
     if not np.all(np.in1d(idx_src_c, idx_vc)):
         raise RuntimeError("current source indices should overlap with electric indices")
@@ -77,7 +86,7 @@ def get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, graph_def):
     """
 
     # check voxel indices
-    _check_indices(idx_vc, idx_src_c, idx_src_v)
+    _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v)
     _check_source_graph(idx_vc, idx_src_c, idx_src_v, graph_def)
 
     # detect the existence of magnetic domains
-- 
2.43.0


From 1cc1ec823722a80ff5f3010af6754ad7b6b7b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 22/23] fix: scale the Fourier coefficient at half of the
 sampling frequency as a peak value

---
 pypeec/utils/fourier.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 310b4da..ef6a57a 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -33,6 +33,10 @@ def get_fft(v_time, n_freq=None):
     # scale the DC coefficient
     v_freq[0] *= 0.5
 
+    # scale the coefficient at half of the sampling frequency (if any)
+    if len(v_time) % 2 == 0:
+        v_freq[-1] *= 0.5
+
     # if the required size is specified, use truncation/padding
     if n_freq is not None:
         # pad the frequencies with zeros
@@ -57,11 +61,16 @@ def get_ifft(v_freq, n_time=None):
     # scale the DC coefficient
     v_freq[0] *= 2.0
 
-    # if the required size is specified, use undersampling/oversampling
-    if n_time is not None:
-        v_time = fft.irfft(v_freq, n_time)
-    else:
-        v_time = fft.irfft(v_freq)
+    # default number of samples
+    if n_time is None:
+        n_time = 2*(len(v_freq)-1)
+
+    # scale the coefficient at half of the sampling frequency (if any)
+    if (n_time % 2 == 0) and (n_time//2 < len(v_freq)):
+        v_freq[n_time//2] *= 2.0
+
+    # use undersampling/oversampling for the required size
+    v_time = fft.irfft(v_freq, n_time)
 
     # peak value spectrum scaling
     v_time = 0.5*v_time*len(v_time)
-- 
2.43.0


From aae127fe57f67b423d66cca4ec6c1738053c9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 23/23] fix: escape the file names in the GERBER project files

---
 pypeec/utils/gerber.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 88dc21b..0e07825 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -26,6 +26,14 @@ import shlex
 import subprocess
 
 
+def _get_escape(filename):
+    """
+    Escape the special characters of a file name (string of a project file).
+    """
+
+    return filename.replace("\\", "\\\\").replace('"', '\\"')
+
+
 def _get_gerbv_file(filename_gerbv, folder_gerber, data_gerber, data_stack):
     """
     Create a "gerbv - Gerber Viewer" project file.
@@ -69,21 +77,21 @@ def _get_gerbv_file(filename_gerbv, folder_gerber, data_gerber, data_stack):
             gerber = os.path.join(folder_gerber, gerber)
 
             # add layer
-            fid.write('(define-layer! %d (cons \'filename "%s")\n' % (layer, gerber))
+            fid.write('(define-layer! %d (cons \'filename "%s")\n' % (layer, _get_escape(gerber)))
             fid.write('\t(cons \'visible #t)\n')
             fid.write('\t(cons \'color #(%d %d %d))\n' % color)
             fid.write('\t(cons \'alpha #(%d))\n' % alpha_channel)
             fid.write(')\n')
 
         # add board edges
-        fid.write('(define-layer! 0 (cons \'filename "%s")\n' % gerber_edge)
+        fid.write('(define-layer! 0 (cons \'filename "%s")\n' % _get_escape(gerber_edge))
         fid.write('\t(cons \'visible #t)\n')
         fid.write('\t(cons \'color #(%d %d %d))\n' % tuple(color_edge))
         fid.write('\t(cons \'alpha #(%d))\n' % alpha_channel)
         fid.write(')\n')
 
         # add background
-        fid.write('(define-layer! -1 (cons \'filename "%s")\n' % filename_gerbv)
+        fid.write('(define-layer! -1 (cons \'filename "%s")\n' % _get_escape(filename_gerbv))
         fid.write('\t(cons \'color #(%d %d %d))\n' % tuple(color_background))
         fid.write('\t(cons \'alpha #(%d))\n' % alpha_channel)
         fid.write(')\n')
-- 
2.43.0

