From ba28b39f1aaa612f132be73fb972fa5515760b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 01/50] fix: keep the vector potential states in checkpoints
 and saved states of electromagnetic simulations

The saver cleared and restored a member that does not exist (state_As), so any
state save with electromagnetic tracking raised AttributeError; and the potentials
of the previous step were discarded, so a reloaded simulation continued with other
fields. The state objects hold no solver and can be pickled as they are.
---
 buildup_simulation.py |  6 ------
 pyecloud_saver.py     | 20 --------------------
 2 files changed, 26 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..3dae28b 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -515,12 +515,6 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
-        if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
-            self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
-
         print("Done reload.")
         return dict_state
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..b35a411 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -959,19 +959,6 @@ class pyecloud_saver:
             spacech_ele.luobj = None
             spacech_ele.PyPICobj.luobj = None
 
-            if spacech_ele.flag_em_tracking:
-                temp_state_Ax = spacech_ele.state_Ax
-                temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
-                temp_state_Ax_old = spacech_ele.state_Ax_old
-                temp_state_Ay_old = spacech_ele.state_Ay_old
-                spacech_ele.state_Ax = None
-                spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
-                spacech_ele.state_Ax_old = None
-                spacech_ele.state_Ay_old = None
-
-
             # remove savers
             temp_saver_list = []
             for cloud in cloud_list:
@@ -1001,13 +988,6 @@ class pyecloud_saver:
 
             spacech_ele.PyPICobj.luobj = temp_luobj
 
-            if spacech_ele.flag_em_tracking:
-                spacech_ele.state_Ax = temp_state_Ax
-                spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
-                spacech_ele.state_Ax_old = temp_state_Ax_old
-                spacech_ele.state_Ay_old = temp_state_Ay_old
-
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-- 
2.43.0


From d31fa787ce0a50a1655a696f415b051200bcb823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 02/50] fix: put savers and solver back when saving a
 simulation state fails

An I/O error while pickling left the simulation without savers and without
field solver.
---
 pyecloud_saver.py | 62 ++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index b35a411..a4635cd 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -956,37 +956,39 @@ class pyecloud_saver:
         if self.flag_last_cloud:
 
             temp_luobj = spacech_ele.PyPICobj.luobj
-            spacech_ele.luobj = None
-            spacech_ele.PyPICobj.luobj = None
-
-            # remove savers
-            temp_saver_list = []
-            for cloud in cloud_list:
-                temp_saver_list.append(cloud.pyeclsaver)
-                cloud.pyeclsaver = 'removed'
-
-            dict_state = {
-                'beamtim': beamtim,
-                'spacech_ele': spacech_ele,
-                't_sc_ON': t_sc_ON,
-                'flag_presence_sec_beams': flag_presence_sec_beams,
-                'sec_beams_list': sec_beams_list,
-                'flag_multiple_clouds': self.flag_multiple_clouds,
-                'cloud_list': cloud_list,
-                't_last_En_hist': self.t_last_En_hist}
+            temp_saver_list = [cloud.pyeclsaver for cloud in cloud_list]
 
-            if self.flag_lifetime_hist:
-                dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
-
-            with open(outfile, 'wb') as fid:
-                # use best protocol available
-                pickle.dump(dict_state, fid, protocol=-1)
-
-            # put back savers
-            for cloud, saver in zip(cloud_list, temp_saver_list):
-                cloud.pyeclsaver = saver
-
-            spacech_ele.PyPICobj.luobj = temp_luobj
+            try:
+                spacech_ele.luobj = None
+                spacech_ele.PyPICobj.luobj = None
+
+                # remove savers
+                for cloud in cloud_list:
+                    cloud.pyeclsaver = 'removed'
+
+                dict_state = {
+                    'beamtim': beamtim,
+                    'spacech_ele': spacech_ele,
+                    't_sc_ON': t_sc_ON,
+                    'flag_presence_sec_beams': flag_presence_sec_beams,
+                    'sec_beams_list': sec_beams_list,
+                    'flag_multiple_clouds': self.flag_multiple_clouds,
+                    'cloud_list': cloud_list,
+                    't_last_En_hist': self.t_last_En_hist}
+
+                if self.flag_lifetime_hist:
+                    dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
+
+                with open(outfile, 'wb') as fid:
+                    # use best protocol available
+                    pickle.dump(dict_state, fid, protocol=-1)
+
+            finally:
+                # put back savers
+                for cloud, saver in zip(cloud_list, temp_saver_list):
+                    cloud.pyeclsaver = saver
+
+                spacech_ele.PyPICobj.luobj = temp_luobj
 
             print('Save simulation state in: ' + outfile)
 
-- 
2.43.0


From b490d652acf531ee44c8c19957339994b961e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 03/50] fix: a crash or an I/O error while saving cannot damage
 checkpoints and outputs

Checkpoints, simulation states, the main output and its safety copy are written
to a temporary file that replaces the previous one only when complete. A restart
takes the latest checkpoint when an interruption left two of them, instead of
refusing to start.
---
 buildup_simulation.py | 22 +++++++++++++---------
 pyecloud_saver.py     | 32 +++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 3dae28b..2454ae6 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -113,20 +113,24 @@ class BuildupSimulation(object):
         # Checking if there are saved checkpoints
         if self.checkpoint_folder is not None:
             if os.path.isdir(self.checkpoint_folder):
-                if len(os.listdir(self.checkpoint_folder)) == 1:
+                checkpoints = [
+                    ff
+                    for ff in os.listdir(self.checkpoint_folder)
+                    if ff.startswith("simulation_checkpoint_") and ff.endswith(".pkl")
+                ]
+                if len(checkpoints) > 0:
                     print("Loading from checkpoint...")
-                    # Selecting latest checkpoint
-                    checkpoint = os.listdir(self.checkpoint_folder)[0]
+                    # Selecting latest checkpoint (an interruption between the save of a
+                    # checkpoint and the removal of the previous one leaves both)
+                    checkpoints.sort(key=lambda ff: int(ff.split(".pkl")[0].split("_")[-1]))
                     self.load_checkpoint(
-                        filename_simulation_checkpoint=checkpoint,
+                        filename_simulation_checkpoint=checkpoints[-1],
                         load_from_folder=self.checkpoint_folder,
                     )
-                elif len(os.listdir(self.checkpoint_folder)) == 0:
-                    print("No checkpoint found, starting new simulation...")
+                    for ff in checkpoints[:-1]:
+                        os.remove(self.checkpoint_folder + ff)
                 else:
-                    raise ValueError(
-                        "More than one checkpoint found in %s" % self.checkpoint_folder
-                    )
+                    print("No checkpoint found, starting new simulation...")
 
     def run(self, t_end_sim=None):
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index a4635cd..df86d2a 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -68,6 +68,22 @@ except ImportError:
     import pickle
 
 
+def _write_file_safely(path, write):
+    # The file at path is replaced only once the new content is completely on disk,
+    # so that an interruption or an I/O error cannot damage the existing file
+    temp_path = path + '.tmp'
+    try:
+        with open(temp_path, 'wb') as fid:
+            write(fid)
+            fid.flush()
+            os.fsync(fid.fileno())
+        os.replace(temp_path, path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 class pyecloud_saver:
 
     def __init__(self, logfile_path):
@@ -308,7 +324,11 @@ class pyecloud_saver:
             self.area = impact_man.chamb.area
 
             if (beamtim.pass_numb + 1) % self.save_mat_every == 0:
-                sio.savemat(self.filen_main_outp, self.build_outp_dict(buildup_sim), oned_as='row')
+                outp_dict = self.build_outp_dict(buildup_sim)
+                outp_path = self.filen_main_outp
+                if not outp_path.endswith('.mat'):
+                    outp_path += '.mat'
+                _write_file_safely(outp_path, lambda fid: sio.savemat(fid, outp_dict, oned_as='row'))
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
@@ -547,7 +567,10 @@ class pyecloud_saver:
                 self.t_last_checkp = beamtim.tt_curr
 
     def _copy_main_outp_to_safety(self, outpath, beamtim):
-        shutil.copy(self.filen_main_outp, outpath)
+        if os.path.isdir(outpath):
+            outpath = os.path.join(outpath, os.path.basename(self.filen_main_outp))
+        with open(self.filen_main_outp, 'rb') as fid_orig:
+            _write_file_safely(outpath, lambda fid: shutil.copyfileobj(fid_orig, fid))
         self.t_last_copy = beamtim.tt_curr
 
     def _copy_main_outp_init(self, copy_main_outp_DT, copy_main_outp_folder):
@@ -979,9 +1002,8 @@ class pyecloud_saver:
                 if self.flag_lifetime_hist:
                     dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
 
-                with open(outfile, 'wb') as fid:
-                    # use best protocol available
-                    pickle.dump(dict_state, fid, protocol=-1)
+                # use best protocol available
+                _write_file_safely(outfile, lambda fid: pickle.dump(dict_state, fid, protocol=-1))
 
             finally:
                 # put back savers
-- 
2.43.0


From 4d0a6a46d5c11ef6932f18915e1397c49dcd4b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 04/50] fix: accept a checkpoint folder without trailing slash

Checkpoints were written beside the folder and not found at restart, which
silently started the simulation from the beginning.
---
 buildup_simulation.py | 6 +++---
 pyecloud_saver.py     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 2454ae6..3f6959a 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -128,7 +128,7 @@ class BuildupSimulation(object):
                         load_from_folder=self.checkpoint_folder,
                     )
                     for ff in checkpoints[:-1]:
-                        os.remove(self.checkpoint_folder + ff)
+                        os.remove(os.path.join(self.checkpoint_folder, ff))
                 else:
                     print("No checkpoint found, starting new simulation...")
 
@@ -485,7 +485,7 @@ class BuildupSimulation(object):
         load_from_folder="./",
     ):  # , reset_pyeclsaver = True):
 
-        with open(load_from_folder + filename_simulation_state, "rb") as fid:
+        with open(os.path.join(load_from_folder, filename_simulation_state), "rb") as fid:
             dict_state = pickle.load(fid)
 
         self.beamtim = dict_state["beamtim"]
@@ -526,7 +526,7 @@ class BuildupSimulation(object):
         print(
             (
                 "Reloading from checkpoint: %s..."
-                % (load_from_folder + filename_simulation_checkpoint)
+                % os.path.join(load_from_folder, filename_simulation_checkpoint)
             )
         )
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index df86d2a..cc6dbb2 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -550,7 +550,7 @@ class pyecloud_saver:
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
 
-                outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
+                outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                                             sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
@@ -559,7 +559,7 @@ class pyecloud_saver:
 
                 if self.i_checkp > 0:
                     if self.flag_last_cloud:
-                        prevpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
+                        prevpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1))
                         os.remove(prevpath)
                         print('Removed simulation checkpoint in: ' + prevpath)
 
-- 
2.43.0


From b03e7f292b656539912b35b6916eae34cbd184d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 05/50] fix: a safety copy due before the first save of the
 main output stopped the simulation

With save_mat_every > 1, the first checkpoint or copy raised FileNotFoundError.
---
 pyecloud_saver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index cc6dbb2..328d51b 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -567,6 +567,9 @@ class pyecloud_saver:
                 self.t_last_checkp = beamtim.tt_curr
 
     def _copy_main_outp_to_safety(self, outpath, beamtim):
+        if not os.path.isfile(self.filen_main_outp):
+            # nothing to copy yet (save_mat_every > 1)
+            return
         if os.path.isdir(outpath):
             outpath = os.path.join(outpath, os.path.basename(self.filen_main_outp))
         with open(self.filen_main_outp, 'rb') as fid_orig:
-- 
2.43.0


From eaaf2d9869a3217bcdc09d4c235fd5644b460f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 06/50] fix: a reloaded state continues as the uninterrupted
 simulation

The cleaning and regeneration that follow the save in the same time step were
skipped after a reload, and the depletion of the cross-ionization targets was
forgotten.
---
 buildup_simulation.py |  9 +++++++++
 pyecloud_saver.py     | 15 ++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 3f6959a..6c9a879 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -519,6 +519,15 @@ class BuildupSimulation(object):
         print("Restoring PyPIC LU object...")
         self.spacech_ele.PyPICobj.build_sparse_solver()
 
+        self.chamb = self.cloud_list[0].impact_man.chamb
+        if dict_state.get("cross_ion") is not None:
+            self.cross_ion = dict_state["cross_ion"]
+
+        # The state was saved before the last operation of its time step
+        self._MP_cleaning_and_regenerations(
+            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
+        )
+
         print("Done reload.")
         return dict_state
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 328d51b..4a761d3 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -284,7 +284,7 @@ class pyecloud_saver:
 
         # Check for simulation save state
         self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                             sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                             sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
         # Check for save video charge density
         self._rho_video_save(spacech_ele, beamtim, rho_cloud)
@@ -332,7 +332,7 @@ class pyecloud_saver:
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                  sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                                  sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
             self._copy_main_outp_save(beamtim)
 
@@ -545,7 +545,7 @@ class pyecloud_saver:
                 os.makedirs(self.checkpoint_folder)
 
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                         sec_beams_list, flag_multiple_clouds, cloud_list):
+                         sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         # First check if it is time to save a checkpoint
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
@@ -553,7 +553,7 @@ class pyecloud_saver:
                 outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
@@ -977,7 +977,7 @@ class pyecloud_saver:
             self.i_obs_sim = 0
 
     def _sim_state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile):
+                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile, cross_ion=None):
 
         if self.flag_last_cloud:
 
@@ -1000,6 +1000,7 @@ class pyecloud_saver:
                     'sec_beams_list': sec_beams_list,
                     'flag_multiple_clouds': self.flag_multiple_clouds,
                     'cloud_list': cloud_list,
+                    'cross_ion': cross_ion,
                     't_last_En_hist': self.t_last_En_hist}
 
                 if self.flag_lifetime_hist:
@@ -1018,7 +1019,7 @@ class pyecloud_saver:
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                        sec_beams_list, flag_multiple_clouds, cloud_list):
+                        sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion=None):
         #Simulation state save
         if self.flag_save_simulation_state:
             if self.i_obs_sim < self.N_obs_sim:
@@ -1027,7 +1028,7 @@ class pyecloud_saver:
                     outpath = self.folder_outp + '/' + filename_simulation_state
 
                     self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
 
                     self.i_obs_sim = self.i_obs_sim + 1
 
-- 
2.43.0


From cf8f6c443c3185d2f59c3d07f1645adc7818ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 07/50] fix: a restart from a checkpoint continues the recorded
 history exactly

The history was recovered from the output file, cutting it at indices that lost
the last sample, mixed up time axes and forgot several quantities, and a crash
between the two files left them inconsistent. The checkpoint now carries it.
---
 buildup_simulation.py | 10 +++++++---
 pyecloud_saver.py     | 37 +++++++++++++++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 6c9a879..8733de8 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -547,8 +547,12 @@ class BuildupSimulation(object):
             load_from_folder=load_from_folder,
         )
 
-        for cloud in self.cloud_list:
-            cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
+        for i_cloud, cloud in enumerate(self.cloud_list):
+            if "saver_histories" in dict_state:
+                cloud.pyeclsaver.set_history(dict_state["saver_histories"][i_cloud])
+            else:
+                # Checkpoint without history, recover it from the output file
+                cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
+                cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
-            cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 4a761d3..5c65e61 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -553,7 +553,8 @@ class pyecloud_saver:
                 outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion)
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath, cross_ion,
+                                            save_history=True)
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
@@ -599,6 +600,34 @@ class pyecloud_saver:
             if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT):
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
+    # Everything recorded up to now, saved in the checkpoints
+    _history_members = [
+        # step by step
+        'i_last_save', 't_last_save', 't', 'lam_t_array', 'Nel_timep', 'Nel_imp_time', 'Nel_emit_time',
+        'En_imp_eV_time', 'En_emit_eV_time', 'En_kin_eV_time', 'cen_density', 'N_mp_time', 'nel_mp_ref_time',
+        'Nel_cross_ion', 'N_mp_cross_ion', 'DN_cross_ion', 'En_electric_eV_time', 'el_dens_at_probes',
+        'sbs_custom_data', 'Nel_impact_last_step_group', 'Nel_emit_last_step_group',
+        'En_imp_last_step_group_eV', 'En_emit_last_step_group_eV',
+        # pass by pass
+        't_hist', 'nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'nel_hist',
+        'N_mp_impact_pass', 'N_mp_corrected_pass', 'N_mp_pass', 'N_mp_ref_pass', 'nel_hist_impact_seg',
+        'nel_hist_emit_seg', 'energ_eV_impact_seg', 'nel_hist_det', 'pbp_custom_data',
+        # at their own times
+        't_last_En_hist', 'En_hist', 't_En_hist', 'all_Ekin_hist', 'cos_angle_hist', 'En_hist_seg',
+        't_last_lifetime_hist', 'lifetime_hist', 't_lifetime_hist', 't_sc_video', 'U_sc_eV',
+        # snapshots already taken
+        'i_obs', 'i_obs_sim',
+        # recorded once
+        'sey_test_E_impact_eV', 'sey_test_cos_theta', 'sey_test_deltas', 'ene_dist_test_cos_theta',
+        'ene_dist_test_E_impact_eV', 'emit_ene_dist_test']
+
+    def get_history(self):
+        return {kk: getattr(self, kk) for kk in self._history_members if hasattr(self, kk)}
+
+    def set_history(self, history):
+        for kk in list(history.keys()):
+            setattr(self, kk, history[kk])
+
     def load_from_output(self, last_t=None):
 
         if self.step_by_step_custom_observables is not None:
@@ -977,7 +1006,8 @@ class pyecloud_saver:
             self.i_obs_sim = 0
 
     def _sim_state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile, cross_ion=None):
+                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile, cross_ion=None,
+                               save_history=False):
 
         if self.flag_last_cloud:
 
@@ -1006,6 +1036,9 @@ class pyecloud_saver:
                 if self.flag_lifetime_hist:
                     dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
 
+                if save_history:
+                    dict_state['saver_histories'] = [saver.get_history() for saver in temp_saver_list]
+
                 # use best protocol available
                 _write_file_safely(outfile, lambda fid: pickle.dump(dict_state, fid, protocol=-1))
 
-- 
2.43.0


From 248f4f29603c76e4564f86e4cafd97a583425517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 08/50] fix: save the last sample of the density probes

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 5c65e61..ad650d3 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -949,7 +949,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From 69e9f11c014a711f310042dd5d18738918d36349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 09/50] fix: save the charge density videos of additional
 clouds in the output folder

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index ad650d3..d70b0b3 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1098,7 +1098,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -1111,7 +1111,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From 43a0054d02e56cf0cf07aef523aa58068242652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 10/50] fix: a stop request lets all the clouds save the
 current passage

---
 pyecloud_saver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index d70b0b3..c4bd49f 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1175,7 +1175,9 @@ class pyecloud_saver:
                     print('while trying to write the following line on progress file:')
                     print('%f'%(float(beamtim.pass_numb) / float(beamtim.N_pass_tot)))
 
-            #stop simulation
+            #stop simulation (when the data of all the clouds is saved)
+            if not self.flag_last_cloud:
+                return
             try:
                 with open(self.stopfile, 'r') as fid:
                     fid.readlines()
-- 
2.43.0


From 046d85a3bebfd993ab4c4ed795293b2df32420a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 11/50] fix: a failed save of a video does not break the
 running simulation

---
 pyecloud_saver.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index c4bd49f..28731f5 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1086,11 +1086,9 @@ class pyecloud_saver:
                 self.rho_video.append(spacech_ele.rho)
                 self.t_video.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
-                self.rho_video = np.array(self.rho_video)
-                self.t_video = np.array(self.t_video)
                 filename_rho = self.folder_outp + '/rho_video/rho_pass%d.mat'%(beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
-                sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video, 'rho_video': self.rho_video}, oned_as='row')
+                sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': np.array(self.t_video), 'rho_video': np.array(self.rho_video)}, oned_as='row')
                 print('Done')
                 self.rho_video = []
                 self.t_video = []
@@ -1109,11 +1107,9 @@ class pyecloud_saver:
                     self.rho_video_cloud.append(rho_cloud)
                 self.t_video_cloud.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
-                self.rho_video_cloud = np.array(self.rho_video_cloud)
-                self.t_video_cloud = np.array(self.t_video_cloud)
                 filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
-                sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
+                sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': np.array(self.t_video_cloud), 'rho_video': np.array(self.rho_video_cloud)}, oned_as='row')
                 print('Done')
                 self.rho_video_cloud = []
                 self.t_video_cloud = []
@@ -1139,13 +1135,10 @@ class pyecloud_saver:
                 self.efy_video.append(spacech_ele.efy)
                 self.t_efield_video.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
-                self.efx_video = np.array(self.efx_video)
-                self.efy_video = np.array(self.efy_video)
-                self.t_efield_video = np.array(self.t_efield_video)
                 filename_efield = self.folder_outp + '/efield_video/efield_pass%d.mat'%(beamtim.pass_numb - 1)
                 print('Saving %s'%filename_efield)
-                sio.savemat(filename_efield, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_efield_video': self.t_efield_video,
-                                              'efx_video': self.efx_video, 'efy_video': self.efy_video}, oned_as='row')
+                sio.savemat(filename_efield, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_efield_video': np.array(self.t_efield_video),
+                                              'efx_video': np.array(self.efx_video), 'efy_video': np.array(self.efy_video)}, oned_as='row')
                 print('Done')
                 self.efx_video = []
                 self.efy_video = []
-- 
2.43.0


From 0d4dc3a802ff27c6eac5be11757d114965f695a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 12/50] fix: give a new velocity to true secondaries also when
 no macroparticle is added

---
 sec_emission_model_furman_pivi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..c6d17c0 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,6 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
@@ -492,6 +489,10 @@ class SEY_model_furman_pivi():
                 else:
                     i_seg_new_MPs = None
 
+            # Replace velocities
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
             # Handle absorbed MPs
             flag_truesec_and_zero = flag_truesec & (n_emit_truesec_MPs == 0)
             nel_replace[flag_truesec_and_zero] = 0.0
-- 
2.43.0


From a75c1c1e121f4a4c24fb57f3031efb6a88603b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 13/50] fix: energy of backscattered electrons is never
 negative or infinite

---
 sec_emission_model_furman_pivi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index c6d17c0..82bdc6a 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -300,9 +300,11 @@ class SEY_model_furman_pivi():
             cc = 1e-2
             dd = 1.5e2
             sigmaE_modified = (self.sigmaE - aa) + bb * (1 + np.tanh(cc * (E_0 - dd)))
-            return E_0 + sqrt2 * sigmaE_modified * erfinv((uu - 1) * erf(E_0 / (sqrt2 * sigmaE_modified)))
+            En_gen = E_0 + sqrt2 * sigmaE_modified * erfinv((uu - 1) * erf(E_0 / (sqrt2 * sigmaE_modified)))
         else:
-            return E_0 + sqrt2 * self.sigmaE * erfinv((uu - 1) * erf(E_0 / (sqrt2 * self.sigmaE)))
+            En_gen = E_0 + sqrt2 * self.sigmaE * erfinv((uu - 1) * erf(E_0 / (sqrt2 * self.sigmaE)))
+        # The inversion can give slightly negative values (-inf for uu = 0) at the lower end
+        return np.maximum(En_gen, 0.)
 
     def get_energy_rediffused(self, E0):
         """
-- 
2.43.0


From 2cee44b092955b15292af44e23e51a2ab2a9db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 14/50] fix: report that the macroparticle arrays are full
 instead of dropping the last one

---
 MP_system.py            | 14 ++++++++++++++
 gas_ionization_class.py |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..f92c0b1 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -132,6 +132,12 @@ class MP_system:
             self.N_mp_async_regen = N_mp_async_regen
             self.N_mp_after_async_regen = N_mp_after_async_regen
 
+    def check_room_for(self, N_new_MP):
+        # numpy would silently drop a single macroparticle exceeding the size of the arrays
+        if self.N_mp + N_new_MP > len(self.x_mp):
+            raise ValueError('Cloud %s: no room for %d more macroparticles (N_mp=%d, N_mp_max=%d)!' % (
+                self.name, N_new_MP, self.N_mp, len(self.x_mp)))
+
     def clean_small_MPs(self):
 
         print("Cloud %s: Start clean. N_mp=%d Nel=%e"%(self.name, self.N_mp, np.sum(self.nel_mp[0:self.N_mp])))
@@ -458,6 +464,8 @@ class MP_system:
 
             if Nint_new_MP > 0:
 
+                self.check_room_for(Nint_new_MP)
+
                 x_temp = (x_max - x_min) * rand(Nint_new_MP) + x_min
                 y_temp = (y_max - y_min) * rand(Nint_new_MP) + y_min
 
@@ -516,6 +524,8 @@ class MP_system:
             y_temp = y_temp[flag_keep]
             Nint_new_MP = len(x_temp)
 
+            self.check_room_for(Nint_new_MP)
+
             self.x_mp[self.N_mp:self.N_mp + Nint_new_MP] = x_temp
             #Be careful to the indexing when translating to python
             self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = y_temp
@@ -536,6 +546,8 @@ class MP_system:
             return MP_positions(self.x_mp[:self.N_mp], self.y_mp[:self.N_mp], self.z_mp[:self.N_mp])
 
     def add_new_MPs(self, N_new_MP, nel_new_mp, x, y, z, vx, vy, vz, t_last_impact):
+        self.check_room_for(N_new_MP)
+
         N_mp_old = self.N_mp
         N_mp_new = self.N_mp + N_new_MP
         self.x_mp[N_mp_old:N_mp_new] = x
@@ -560,6 +572,8 @@ class MP_system:
 
         Nint_new_MP = int(dict_MP_init['N_mp'])
 
+        self.check_room_for(Nint_new_MP)
+
         self.x_mp[self.N_mp:self.N_mp + Nint_new_MP] = np.squeeze(dict_MP_init['x_mp'])
         self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = np.squeeze(dict_MP_init['y_mp'])
         self.z_mp[self.N_mp:self.N_mp + Nint_new_MP] = np.squeeze(dict_MP_init['z_mp'])
diff --git a/gas_ionization_class.py b/gas_ionization_class.py
index 096495a..8043f7b 100644
--- a/gas_ionization_class.py
+++ b/gas_ionization_class.py
@@ -99,6 +99,8 @@ class residual_gas_ionization:
         Nint_new_MP = int(Nint_new_MP) + int(rand() < rest)
 
         if Nint_new_MP > 0:
+            MP_e.check_room_for(Nint_new_MP)
+
             unif_flag = (rand(Nint_new_MP) < self.unif_frac)
             gauss_flag = ~(unif_flag)
 
-- 
2.43.0


From 6c5f72245c212fa18675f8c24b0b4de42e2ec25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 15/50] fix: a soft regeneration always keeps at least one
 macroparticle

---
 MP_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MP_system.py b/MP_system.py
index f92c0b1..7d89ae0 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -189,7 +189,10 @@ class MP_system:
                 death_prob = float(self.N_mp - target_N_mp) / float(self.N_mp)
 
                 flag_keep = np.array(len(self.x_mp) * [False])
-                flag_keep[:self.N_mp] = (rand(self.N_mp) > death_prob)
+                survival = rand(self.N_mp)
+                flag_keep[:self.N_mp] = (survival > death_prob)
+                # at least one macroparticle has to survive to carry the charge
+                flag_keep[np.argmax(survival)] = True
                 self.N_mp = np.sum(flag_keep)
 
                 self.x_mp[0:self.N_mp] = np.array(self.x_mp[flag_keep].copy())
-- 
2.43.0


From c2e80db44c7632888e5ad99caac3996967da9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 16/50] fix: regeneration with an even number of grid points
 moved macroparticles across the grid

---
 MP_system.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 7d89ae0..62c60cb 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -293,34 +293,34 @@ class MP_system:
             #
             #
             Dx_reg = 2 * x_max / (self.Nx_reg - 1)
-            bias_x = np.ceil(float(self.Nx_reg) / 2.)
+            bias_x = (self.Nx_reg + 1) / 2.
             #Attention when trnslating to python
 
             Dy_reg = 2 * self.chamb.y_aper / (self.Ny_reg - 1)
-            bias_y = np.ceil(float(self.Ny_reg) / 2.)
+            bias_y = (self.Ny_reg + 1) / 2.
             #Attention when trnslating to python
 
             Dvx_reg = 2 * vx_max / (self.Nvx_reg - 1)
-            bias_vx = np.ceil(float(self.Nvx_reg) / 2.)
+            bias_vx = (self.Nvx_reg + 1) / 2.
             #Attention when trnslating to python
 
             Dvy_reg = 2 * vy_max / (self.Nvy_reg - 1)
-            bias_vy = np.ceil(float(self.Nvy_reg) / 2.)
+            bias_vy = (self.Nvy_reg + 1) / 2.
             #Attention when trnslating to python
 
             Dvz_reg = 2 * vz_max / (self.Nvz_reg - 1)
-            bias_vz = np.ceil(float(self.Nvz_reg) / 2)
+            bias_vz = (self.Nvz_reg + 1) / 2.
             #Attention when trnslating to python
 
             print('Cloud %s: particles_assigned_to grid'%(self.name))
 
             ##
             #% MATLAB-like indices
-            ix_mp = np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x
-            iy_mp = np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y
-            ivx_mp = np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx
-            ivy_mp = np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy
-            ivz_mp = np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz
+            ix_mp = np.around(self.x_mp[0:self.N_mp] / Dx_reg + bias_x)
+            iy_mp = np.around(self.y_mp[0:self.N_mp] / Dy_reg + bias_y)
+            ivx_mp = np.around(self.vx_mp[0:self.N_mp] / Dvx_reg + bias_vx)
+            ivy_mp = np.around(self.vy_mp[0:self.N_mp] / Dvy_reg + bias_vy)
+            ivz_mp = np.around(self.vz_mp[0:self.N_mp] / Dvz_reg + bias_vz)
             #
             #
             #
-- 
2.43.0


From d4b0ee1a8bc934c6b6e0594febaabe306f11236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 17/50] fix: velocity grid of the regeneration depended on
 macroparticles removed before

---
 MP_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 62c60cb..a7de162 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -281,9 +281,9 @@ class MP_system:
 
             #Assign particle to grid
             #
-            vx_max = max(abs(self.vx_mp))
-            vy_max = max(abs(self.vy_mp))
-            vz_max = max(abs(self.vz_mp))
+            vx_max = np.max(abs(self.vx_mp[:self.N_mp]), initial=0.)
+            vy_max = np.max(abs(self.vy_mp[:self.N_mp]), initial=0.)
+            vz_max = np.max(abs(self.vz_mp[:self.N_mp]), initial=0.)
             if vx_max == 0:
                 vx_max = 1e-5
             if vy_max == 0:
-- 
2.43.0


From d77f36d361952559e746d0b690e88309f857a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:05 +0000
Subject: [PATCH 18/50] fix: no charge of the old macroparticles is left when a
 cloud is initialized from a dictionary

---
 MP_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MP_system.py b/MP_system.py
index a7de162..8ef024c 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -609,4 +609,5 @@ class MP_system:
 
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
+        self.nel_mp[:] = 0.0
         self.add_from_file(dict_MP)
-- 
2.43.0


From 20709e17e030f287d171bcdf0c69312322f5af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 19/50] fix: extracting the SEY curves charged the insulating
 segments of the chamber

---
 impact_management_class.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index 2903b73..b6d4cdf 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -50,6 +50,8 @@
 #
 #-End-preamble---------------------------------------------------------
 
+import copy
+
 import numpy as np
 from . import hist_for as histf
 from . import seg_impact as segi
@@ -378,10 +380,13 @@ class impact_management(object):
                 vx = v_mod * ct
                 vy = v_mod * np.sqrt(1 - ct * ct)
 
+                # The test must not change the surface (e.g. charge insulators)
+                sey_mod = copy.deepcopy(self.sey_mod)
+
                 nel_emit_tot_events, event_type, event_info,\
                     nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                     nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                    self.sey_mod.impacts_on_surface(
+                    sey_mod.impacts_on_surface(
                         mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                         vx_impact=vx * np.ones_like(nel_impact),
                         vy_impact=vy * np.ones_like(nel_impact),
@@ -427,10 +432,13 @@ class impact_management(object):
             vx = v_mod * ct
             vy = v_mod * np.sqrt(1 - ct * ct)
 
+            # The test must not change the surface (e.g. charge insulators)
+            sey_mod = copy.deepcopy(self.sey_mod)
+
             nel_emit_tot_events, event_type, event_info,\
                 nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                 nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                self.sey_mod.impacts_on_surface(
+                sey_mod.impacts_on_surface(
                     mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                     vx_impact=vx * np.ones_like(nel_impact),
                     vy_impact=vy * np.ones_like(nel_impact),
-- 
2.43.0


From 90006d5e3bf430064bc0f1fc07bc1e24a6777693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 20/50] fix: clouds were frozen during time steps shorter than
 half a substep

With a non-uniform time grid, a step shorter than half of the tracker
substep was divided in zero substeps of infinite length: the cloud did not
move. At least one substep is always performed.
---
 buildup_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 8733de8..0606f79 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -324,7 +324,7 @@ class BuildupSimulation(object):
             # Non-uniform beam-profile
             flag_substeps = True
             Dt_substep_target = cloud.dynamics.Dt / cloud.dynamics.N_sub_steps
-            N_substeps_curr = int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            N_substeps_curr = max(1, int(np.round(beamtim.Dt_curr / Dt_substep_target)))
             Dt_substep_curr = beamtim.Dt_curr / N_substeps_curr
 
         elif hasattr(cloud.dynamics, "N_sub_steps"):
-- 
2.43.0


From 7b2b0d2a1944aa3f79b71978dde123eed18931a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 21/50] fix: files with a single time requested no snapshot or
 made the initialization fail

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 28731f5..fd0403e 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -963,7 +963,7 @@ class pyecloud_saver:
             self.flag_save_MP_state = True
             if type(save_mp_state_time_file) is str:
                 dict_save_mp_state_time = sio.loadmat(save_mp_state_time_file)
-                self.t_obs = np.squeeze(dict_save_mp_state_time['t_obs'].real)
+                self.t_obs = np.atleast_1d(np.squeeze(dict_save_mp_state_time['t_obs'].real))
             else:
                 self.t_obs = np.array(save_mp_state_time_file)
 
@@ -998,7 +998,7 @@ class pyecloud_saver:
             self.flag_save_simulation_state = True
             if type(save_simulation_state_time_file) is str:
                 dict_save_simulation_state_time = sio.loadmat(save_simulation_state_time_file)
-                self.t_obs_sim = np.squeeze(dict_save_simulation_state_time['t_obs'].real)
+                self.t_obs_sim = np.atleast_1d(np.squeeze(dict_save_simulation_state_time['t_obs'].real))
             else:
                 self.t_obs_sim = np.array(save_simulation_state_time_file)
 
-- 
2.43.0


From c9d1daac33d8c8d096251aa885ed5a87f3afab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 22/50] fix: a simulation state saved at a bunch passage
 contained data that was already recorded

---
 pyecloud_saver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index fd0403e..5918986 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -282,10 +282,6 @@ class pyecloud_saver:
         # Check for MP save state
         self._MP_state_save(MP_e, beamtim)
 
-        # Check for simulation save state
-        self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                             sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
-
         # Check for save video charge density
         self._rho_video_save(spacech_ele, beamtim, rho_cloud)
 
@@ -330,6 +326,13 @@ class pyecloud_saver:
                     outp_path += '.mat'
                 _write_file_safely(outp_path, lambda fid: sio.savemat(fid, outp_dict, oned_as='row'))
 
+        # Check for simulation save state (after the data of the present step is saved,
+        # otherwise a simulation restarted from the state would save it again)
+        self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
+                             sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
+
+        if beamtim.flag_new_bunch_pass:
+
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                                   sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
-- 
2.43.0


From fca6f78cc04f7d31f8cc0602cc9a9b29d6a55c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 23/50] fix: simulations restarted from a saved state lost the
 impacts since the last recorded sample

---
 buildup_simulation.py |  3 +++
 pyecloud_saver.py     | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 0606f79..777e3f2 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -506,6 +506,9 @@ class BuildupSimulation(object):
             # if reset_pyeclsaver or cloud.pyeclsaver is None:
             cloud.pyeclsaver = new_pyeclsaver
 
+            if "saver_phases" in dict_state:
+                cloud.pyeclsaver.set_history(dict_state["saver_phases"][i_cloud])
+
             if force_disable_save_simulation_state:
                 cloud.pyeclsaver.flag_save_simulation_state = False
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 5918986..850af09 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -624,6 +624,14 @@ class pyecloud_saver:
         'sey_test_E_impact_eV', 'sey_test_cos_theta', 'sey_test_deltas', 'ene_dist_test_cos_theta',
         'ene_dist_test_E_impact_eV', 'emit_ene_dist_test']
 
+    # What is needed to continue the recording in another file, saved in the simulation states
+    _phase_members = [
+        't_last_save', 'Nel_impact_last_step_group', 'Nel_emit_last_step_group',
+        'En_imp_last_step_group_eV', 'En_emit_last_step_group_eV', 't_last_En_hist', 't_last_lifetime_hist']
+
+    def get_phase(self):
+        return {kk: getattr(self, kk) for kk in self._phase_members if hasattr(self, kk)}
+
     def get_history(self):
         return {kk: getattr(self, kk) for kk in self._history_members if hasattr(self, kk)}
 
@@ -1039,6 +1047,8 @@ class pyecloud_saver:
                 if self.flag_lifetime_hist:
                     dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
 
+                dict_state['saver_phases'] = [saver.get_phase() for saver in temp_saver_list]
+
                 if save_history:
                     dict_state['saver_histories'] = [saver.get_history() for saver in temp_saver_list]
 
-- 
2.43.0


From 095262718e8a598920b95efc52b9254ddff55552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 24/50] fix: the detailed histogram of an empty cloud repeated
 the one of the previous passage

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 850af09..526e7e3 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -401,6 +401,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -411,8 +413,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From 25450cee72303424645be2819f7e5ff861667680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 25/50] fix: the histogram of the kinetic energies corrupted
 the memory for very high energies

---
 compute_hist.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute_hist.f b/compute_hist.f
index c827f15..69c4088 100644
--- a/compute_hist.f
+++ b/compute_hist.f
@@ -38,7 +38,7 @@ Cf2py intent(inout) hist
 		!write (*,*) 'Nxg=', Nxg
 		!write (*,*) 'i=', i
 
-		if (i<Nxg) then
+		if (fi<dble(Nxg)) then
         	hist(i) = hist(i) + wei_mp_curr*(1-hx);
         	hist(i+1) = hist(i+1) + wei_mp_curr*hx;
         	else
-- 
2.43.0


From 1327a5f0c4cb949fa7db2d25657b0ced64153998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 26/50] fix: simulations with secondary beams could not run
 without a progress file

---
 init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 0485389..9cc1e97 100644
--- a/init.py
+++ b/init.py
@@ -248,6 +248,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                     # in case sb_par.beam_long_prof_file is -1
                     sbeam_long_prof_file_path = sb_par.beam_long_prof_file
 
+                if cc.progress_path is not None:
+                    progress_mapgen_file_sec = cc.progress_path + '_mapgen_sec_%d' % ii
+                else:
+                    progress_mapgen_file_sec = None
+
                 sec_beams_list.append(beatim.beam_and_timing(sb_par.flag_bunched_beam, sb_par.fact_beam, sb_par.coast_dens, sb_par.q_part, sb_par.beam_field_file, cc.lam_th,
                                                              b_spac=sb_par.b_spac, sigmaz=sb_par.sigmaz, t_offs=sb_par.t_offs, filling_pattern_file=sb_par.filling_pattern_file, Dt=cc.Dt, t_end=cc.t_end,
                                                              beam_long_prof_file=sbeam_long_prof_file_path, Dh_beam_field=sb_par.Dh_beam_field, f_telescope_beam=sb_par.f_telescope_beam,
@@ -255,7 +260,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                                              chamb=chamb, sigmax=sb_par.sigmax, sigmay=sb_par.sigmay,
                                                              x_beam_pos=sb_par.x_beam_pos, y_beam_pos=sb_par.y_beam_pos, save_beam_field_file_as=sb_par.save_beam_field_file_as,
                                                              flag_secodary_beam=True, t_primary_beam=beamtim.t,
-                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=(cc.progress_path + ('_mapgen_sec_%d' % ii))))
+                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=progress_mapgen_file_sec))
     else:
         beamtim = None
         sec_beams_list = []
-- 
2.43.0


From c4b2a153745e10cfcd690ac99c6a0b770e4d4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 27/50] fix: an ecloud in a tracking simulation was pushed with
 the field left in the PIC by another passage or ecloud

---
 PyEC4PyHT.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 394c2ce..b2beba2 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -65,6 +65,15 @@ class Empty(object):
     pass
 
 
+def _elementary_grids(pic):
+    """Single-grid PIC objects a PIC object is made of (more than one with telescopic grids)."""
+    if hasattr(pic, "pic_list"):
+        return _elementary_grids(pic.pic_list[-1])
+    if hasattr(pic, "pic_internal"):
+        return _elementary_grids(pic.pic_external) + [pic.pic_internal]
+    return [pic]
+
+
 class DummyBeamTim(object):
     """Dummy beam-timing class to interface with buildup simulation"""
 
@@ -380,6 +389,7 @@ class Ecloud(object):
         self.i_reinit = 0
         self.t_sim = 0.0
         self.i_curr_bunch = -1
+        self._reset_space_charge_state()
 
     #    @profile
     def track(self, beam):
@@ -539,6 +549,9 @@ class Ecloud(object):
             new_pass = force_pyecl_newpass
             self.i_curr_bunch = 0
 
+        # The PIC can be shared with other eclouds
+        self._load_space_charge_state()
+
         # Cloud simulation
         for i_clou_step, dt in enumerate(dt_array):
 
@@ -688,6 +701,31 @@ class Ecloud(object):
             self.t_sim += dt
             new_pass = False  # it can be true only for the first sub-slice of a slice
 
+        self._store_space_charge_state()
+
+    def _reset_space_charge_state(self):
+        """A passage starts without cloud field."""
+        self._space_charge_fields = None
+        self._space_charge_t_last_recom = self.t_sim
+
+    def _load_space_charge_state(self):
+        """Put back in the PIC the cloud field left by the previous slice."""
+        grids = _elementary_grids(self.cloudsim.spacech_ele.PyPICobj)
+        for i_grid, grid in enumerate(grids):
+            for name in ("rho", "phi", "efx", "efy"):
+                if self._space_charge_fields is None:
+                    setattr(grid, name, np.zeros_like(getattr(grid, name)))
+                else:
+                    setattr(grid, name, self._space_charge_fields[i_grid][name].copy())
+        self.cloudsim.spacech_ele.t_last_recom = self._space_charge_t_last_recom
+
+    def _store_space_charge_state(self):
+        self._space_charge_fields = [
+            {name: getattr(grid, name).copy() for name in ("rho", "phi", "efx", "efy")}
+            for grid in _elementary_grids(self.cloudsim.spacech_ele.PyPICobj)
+        ]
+        self._space_charge_t_last_recom = self.cloudsim.spacech_ele.t_last_recom
+
     def _reinitialize(self):
 
         cc = mlm.obj_from_dict(self.cloudsim.config_dict)
@@ -793,6 +831,7 @@ class Ecloud(object):
             self.Ey_ele_last_track_at_probes = []
 
         # ~ self.t_sim = 0.
+        self._reset_space_charge_state()
         self.i_curr_bunch = -1
         self.i_reinit += 1
 
-- 
2.43.0


From 58a0ef621f0dc5a73e8239f34becc757d4a1e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 28/50] fix: the beam field recorded for a slice without
 particles was that of a previous slice

---
 PyEC4PyHT.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index b2beba2..02ee573 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -569,6 +569,11 @@ class Ecloud(object):
                 # build dummy beamtim object
                 dummybeamtim = DummyBeamTim(None)
 
+                # the beam field can be recorded
+                for grid in _elementary_grids(self.beam_PyPIC_state):
+                    for name in ("rho", "phi", "efx", "efy"):
+                        setattr(grid, name, np.zeros_like(getattr(grid, name)))
+
                 dummybeamtim.lam_t_curr = 0.0
                 dummybeamtim.sigmax = 0.0
                 dummybeamtim.sigmay = 0.0
-- 
2.43.0


From 3c54bf7f7fd35e708f16c3902620d990d540aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 29/50] fix: an ecloud with field probes could not be tracked
 slice by slice

---
 PyEC4PyHT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 02ee573..9e32aa4 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -331,6 +331,8 @@ class Ecloud(object):
         self.Ey_ele_last_track_at_probes = -1
         if "probes_position" in list(kwargs.keys()):
             self.save_ele_field_probes = True
+            self.Ex_ele_last_track_at_probes = []
+            self.Ey_ele_last_track_at_probes = []
             self.probes_position = kwargs["probes_position"]
             self.N_probes = len(self.probes_position)
             self.x_probes = []
-- 
2.43.0


From c9778dc7c5a79e8ef6bdc43bfc3c8230389f1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 30/50] fix: the impacts recorded for a passage through an
 ecloud included some of the previous passage

---
 PyEC4PyHT.py               |  1 +
 impact_management_class.py | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 9e32aa4..a34f25a 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -747,6 +747,7 @@ class Ecloud(object):
 
             if thiscloud.pyeclsaver is not None:
                 thiscloud.pyeclsaver.extract_sey = False
+                thiscloud.impact_man.reset_all_hist()
                 thiscloud.pyeclsaver.start_observing(
                     cc.Dt,
                     thiscloud.MP_e,
diff --git a/impact_management_class.py b/impact_management_class.py
index b6d4cdf..75366aa 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -172,6 +172,21 @@ class impact_management(object):
     def reset_lifetime_hist_line(self):
         self.lifetime_hist_line *= 0.
 
+    def reset_all_hist(self):
+        self.reset_impact_hist_tot()
+        self.reset_impact_hist_scrub()
+        self.reset_energ_eV_impact_hist()
+        self.reset_En_hist_line()
+        self.reset_hist_impact_seg()
+        self.reset_hist_emit_seg()
+        self.reset_energ_impact_seg()
+        if self.flag_seg and self.flag_En_hist_seg:
+            self.reset_seg_En_hist_lines()
+        if self.flag_cos_angle_hist:
+            self.reset_cos_angle_hist()
+        if self.flag_lifetime_hist:
+            self.reset_lifetime_hist_line()
+
     # @profile
     def backtrack_and_second_emiss(self, old_pos, MP_e, tt_curr=None):
 
-- 
2.43.0


From 02a3bed413078305b75b454959c916f7b515c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 31/50] fix: the recorded field map selected the particles of a
 slice with a negative slice index

---
 Transverse_Efield_map_for_frozen_cloud.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index f8cb489..ee9fa8b 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -42,17 +42,11 @@ class Transverse_Efield_map(object):
 
         slices = beam.get_slices(self.slicer)
 
-        sid = 0
-        for _ in range(slices.n_slices):
-
-            sid -= 1
+        for sid in range(slices.n_slices - 1, -1, -1):
 
             # select particles in the slice
             pid = slices.particle_indices_of_slice(sid)
 
-            # slice size
-            dz = (slices.z_bins[sid + 1] - slices.z_bins[sid])
-
             self._track_single_slice(beam, sid, pid)
 
     def _track_single_slice(self, beam, sid, pid):
-- 
2.43.0


From 046b7f12c04352e1f01a00e4676af14e450649e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 32/50] fix: the recorded field map ignored enable_kick_x and
 enable_kick_y

---
 PyEC4PyHT.py                              |  2 ++
 Transverse_Efield_map_for_frozen_cloud.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index a34f25a..268ddaa 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -460,6 +460,8 @@ class Ecloud(object):
                 x_beam_offset=self.x_beam_offset,
                 y_beam_offset=self.y_beam_offset,
                 slice_by_slice_mode=self.slice_by_slice_mode,
+                enable_kick_x=self.enable_kick_x,
+                enable_kick_y=self.enable_kick_y,
             )
 
             self._ecloud_track = self.track
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index ee9fa8b..2337ead 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -8,7 +8,8 @@ from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather
 class Transverse_Efield_map(object):
     def __init__(self, xg, yg, Ex, Ey, L_interaction, slicer,
                  flag_clean_slices=False, wrt_slice_centroid=False,
-                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False):
+                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False,
+                 enable_kick_x=True, enable_kick_y=True):
 
         self.slicer = slicer
         self.L_interaction = L_interaction
@@ -22,6 +23,9 @@ class Transverse_Efield_map(object):
         self.x_beam_offset = x_beam_offset
         self.y_beam_offset = y_beam_offset
 
+        self.enable_kick_x = enable_kick_x
+        self.enable_kick_y = enable_kick_y
+
         self.slice_by_slice_mode = slice_by_slice_mode
         if self.slice_by_slice_mode:
             self.sid = 0
@@ -68,8 +72,10 @@ class Transverse_Efield_map(object):
 
         # kick beam particles
         fact_kick = beam.charge / (beam.p0 * beam.beta * c) * self.L_interaction
-        beam.xp[pid] += fact_kick * Ex_sc_p
-        beam.yp[pid] += fact_kick * Ey_sc_p
+        if self.enable_kick_x:
+            beam.xp[pid] += fact_kick * Ex_sc_p
+        if self.enable_kick_y:
+            beam.yp[pid] += fact_kick * Ey_sc_p
 
     def _track_in_single_slice_mode(self, beam):
 
-- 
2.43.0


From cc883dec487842f505af7cc362b238a092efe5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 33/50] fix: the recorded field map kicked slices that do not
 interact with the cloud

---
 Transverse_Efield_map_for_frozen_cloud.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index 2337ead..c2968e3 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -81,7 +81,9 @@ class Transverse_Efield_map(object):
 
         if beam.slice_info != 'unsliced':
             self.sid -= 1
-            self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))
+
+            if beam.slice_info.get('interact_with_EC', True):
+                self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))
 
     def _finalize_and_reinitialize(self):
         self.sid = 0
-- 
2.43.0


From 4bff6c12fa3cc8b9922d2ba34f1fdae11b0f049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 34/50] fix: the recorded field map was misaligned after slices
 tracked in several sub-slices

---
 PyEC4PyHT.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 268ddaa..9b57568 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -449,11 +449,17 @@ class Ecloud(object):
         if not hasattr(self, "efieldmap"):
             from .Transverse_Efield_map_for_frozen_cloud import Transverse_Efield_map
 
+            # Slices that do not interact with the cloud can have several
+            # sub-slices: keep one field per slice (stored from the tail)
+            i_slices = len(self.Ex_ele_last_track) - np.array(
+                self._N_fields_at_slice_end[::-1], dtype=int
+            )
+
             self.efieldmap = Transverse_Efield_map(
                 xg=self.spacech_ele.xg,
                 yg=self.spacech_ele.yg,
-                Ex=self.Ex_ele_last_track,
-                Ey=self.Ey_ele_last_track,
+                Ex=self.Ex_ele_last_track[i_slices],
+                Ey=self.Ey_ele_last_track[i_slices],
                 L_interaction=self.L_ecloud,
                 slicer=self.slicer,
                 flag_clean_slices=True,
@@ -710,6 +716,9 @@ class Ecloud(object):
             self.t_sim += dt
             new_pass = False  # it can be true only for the first sub-slice of a slice
 
+        if self.save_ele_field:
+            self._N_fields_at_slice_end.append(len(self.Ex_ele_last_track))
+
         self._store_space_charge_state()
 
     def _reset_space_charge_state(self):
@@ -803,6 +812,7 @@ class Ecloud(object):
         if self.save_ele_field:
             self.Ex_ele_last_track = []
             self.Ey_ele_last_track = []
+            self._N_fields_at_slice_end = []
 
         if self.save_beam_distributions_last_track:
             self.rho_beam_last_track = []
-- 
2.43.0


From 70d89b8a96b66cc33774fb8b7930830c205671db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:06 +0000
Subject: [PATCH 35/50] fix: the recorded field map did not restart at the
 first slice of the first bunch

---
 Transverse_Efield_map_for_frozen_cloud.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index c2968e3..dbc1086 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -80,6 +80,13 @@ class Transverse_Efield_map(object):
     def _track_in_single_slice_mode(self, beam):
 
         if beam.slice_info != 'unsliced':
+
+            # check if first slice of first bunch
+            if 'info_parent_bunch' in beam.slice_info.keys():
+                if (beam.slice_info['info_parent_bunch']['i_bunch'] == 0
+                        and beam.slice_info['i_slice'] == 0):
+                    self.finalize_and_reinitialize()
+
             self.sid -= 1
 
             if beam.slice_info.get('interact_with_EC', True):
-- 
2.43.0


From 306412dc86a0420a8dbb080742305733fc4314e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 36/50] fix: the electromagnetic tracking ignored the
 communicator of parallel simulations

---
 space_charge_class_electromagnetic.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/space_charge_class_electromagnetic.py b/space_charge_class_electromagnetic.py
index 83de810..ec8e838 100644
--- a/space_charge_class_electromagnetic.py
+++ b/space_charge_class_electromagnetic.py
@@ -117,6 +117,15 @@ class space_charge_electromagnetic(space_charge, object):
 
         # Solve
         if flag_solve:
+            # Average densities and currents over the simulations sharing the communicator
+            if self.comm is not None:
+                for state in (self.PyPICobj, self.state_Ax, self.state_Ay):
+                    allrho = np.zeros((self.comm.Get_size(),) + state.rho.shape)
+                    self.comm.Gather(np.ascontiguousarray(state.rho), allrho) # root is 0
+                    avgrho = np.mean(allrho, axis=0)
+                    self.comm.Bcast(avgrho)
+                    state.rho = avgrho
+
             self.PyPICobj.solve()
             self.PyPICobj.solve_states([self.state_Ax, self.state_Ay])
 
-- 
2.43.0


From cddf1f199d7159aaae8aa9fbbd8660b585889e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 37/50] fix: the recorded field of the beam was overwritten by
 that of the cloud with FFT_OpenBoundary

---
 PyEC4PyHT.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 9b57568..f0faa48 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -600,6 +600,11 @@ class Ecloud(object):
                 )
                 self.cloudsim.spacech_ele.PyPICobj.solve_states([self.beam_PyPIC_state])
 
+                # some solvers return views of buffers that they reuse for the cloud
+                for grid in _elementary_grids(self.beam_PyPIC_state):
+                    for name in ("phi", "efx", "efy"):
+                        setattr(grid, name, getattr(grid, name).copy())
+
                 # build dummy beamtim object
                 dummybeamtim = DummyBeamTim(self.beam_PyPIC_state)
 
-- 
2.43.0


From 8f8ee08251498e4cfb7fb5fab051f88904077cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 38/50] fix: a snapshot of the macroparticles was saved under
 another name after a disk error

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 526e7e3..e149c90 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -994,7 +994,7 @@ class pyecloud_saver:
                         filename_MP_state = 'MP_state_%d'%(self.i_obs)
                     path_MP_state = self.folder_outp + '/' + filename_MP_state
                     sio.savemat(path_MP_state, {'tt': beamtim.tt_curr, 'N_mp': MP_e.N_mp, 'x_mp': MP_e.x_mp[0:MP_e.N_mp], 'y_mp': MP_e.y_mp[0:MP_e.N_mp], 'z_mp': MP_e.z_mp[0:MP_e.N_mp],\
-                                                'vx_mp': MP_e.vx_mp[0:MP_e.N_mp], 'vy_mp': MP_e.vy_mp[0:MP_e.N_mp], 'vz_mp': MP_e.vz_mp[0:MP_e.N_mp], 'nel_mp': MP_e.nel_mp[0:MP_e.N_mp]}, oned_as='row')
+                                                'vx_mp': MP_e.vx_mp[0:MP_e.N_mp], 'vy_mp': MP_e.vy_mp[0:MP_e.N_mp], 'vz_mp': MP_e.vz_mp[0:MP_e.N_mp], 'nel_mp': MP_e.nel_mp[0:MP_e.N_mp]}, oned_as='row', appendmat=False)
 
                     print('Save MP state in: ' + path_MP_state)
                     self.i_obs = self.i_obs + 1
-- 
2.43.0


From 21acf62faa57a04b4aa3aff7c6a56d8f20fabd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 39/50] fix: an electron passing exactly through a corner of
 the wall was booked on segment 0 with a zero normal

---
 geom_impact_poly_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..277df1d 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -52,7 +52,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
                 t_border=((y_out_curr-y_in_curr)*(x_in_curr-Vx[ii])+(x_in_curr-x_out_curr)*(y_in_curr-Vy[ii]))/den
 
 
-            if t_border>=0. and t_border<=1.:
+            if t_border>=-1e-9 and t_border<=1.+1e-9:
                 t_ii = (Nx[ii]*(Vx[ii]-x_in_curr)+Ny[ii]*(Vy[ii]-y_in_curr)) /(Nx[ii]*(x_out_curr-x_in_curr)+Ny[ii]*(y_out_curr-y_in_curr))
                 if t_ii>=0. and t_ii<t_min_curr:
                     t_min_curr=t_ii
-- 
2.43.0


From 8a40ea3116a6b3ce7f2239e5e8124f2bf467ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 40/50] fix: the number of sub-steps of an additional cloud was
 ignored by the BorisMultipole tracker

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 9cc1e97..e16bf81 100644
--- a/init.py
+++ b/init.py
@@ -515,7 +515,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 802c7af6fbc25241192c5b60ae5ad9078be38db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 41/50] fix: macroparticles moved with the time step in input
 when a uniform profile from file overrides it

---
 init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/init.py b/init.py
index e16bf81..b9c3163 100644
--- a/init.py
+++ b/init.py
@@ -227,6 +227,10 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                          x_beam_pos=b_par.x_beam_pos, y_beam_pos=b_par.y_beam_pos, save_beam_field_file_as=b_par.save_beam_field_file_as,
                                          Nx=b_par.Nx, Ny=b_par.Ny, nimag=b_par.nimag, progress_mapgen_file=progress_mapgen_file)
         
+        if beamtim.flag_unif_Dt:
+            # the time step of a uniform profile loaded from file overrides the one in input
+            cc.Dt = beamtim.Dt
+
         if beamtim.N_pass_tot % cc.save_mat_every != 0:
             raise ValueError("Variable save_mat_every=" + str(cc.save_mat_every) + " does not divide the total number of passages=" + str(beamtim.N_pass_tot))
 
-- 
2.43.0


From d17e555c02a0244600a84eb8cdd23306ea69ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 42/50] fix: a filling pattern of a single bunch could not be
 loaded from a file

---
 beam_and_timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_and_timing.py b/beam_and_timing.py
index 1dc8fe2..415f5f0 100644
--- a/beam_and_timing.py
+++ b/beam_and_timing.py
@@ -103,9 +103,9 @@ class beam_and_timing:
             if type(filling_pattern_file) is str:
                 if '.mat' in filling_pattern_file:
                     dict_fillp = sio.loadmat(filling_pattern_file)
-                    ppb_vect = np.squeeze(dict_fillp['ppb_vect'])
+                    ppb_vect = np.atleast_1d(np.squeeze(dict_fillp['ppb_vect']))
                     if 'sigmaz_vect' in list(dict_fillp.keys()):
-                        sigmaz_vect = np.squeeze(dict_fillp['sigmaz_vect'])
+                        sigmaz_vect = np.atleast_1d(np.squeeze(dict_fillp['sigmaz_vect']))
                 else:
                     raise ValueError('Input of filling scheme via txt files is discontinued!')
                     # Incompatible with Python3 because of the exec                   
-- 
2.43.0


From f8672f6c98c88efbc5bc7b6a246fb8bcbccc9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 43/50] fix: the profile of a secondary beam was looked up by
 the name of the main beam's

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index b9c3163..a4b0531 100644
--- a/init.py
+++ b/init.py
@@ -244,7 +244,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From 398a37f8cf73904291df9ecdd640a218dc6755df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 44/50] fix: the Bassetti-Erskine field map was NaN in chambers
 taller than wide

---
 BassErsk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BassErsk.py b/BassErsk.py
index 53a7601..c7f63fa 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -48,6 +48,11 @@ def ImageTerms(x, y, a, b, x0, y0, nimag):
 
     eps0 = 8.854187817620e-12
 
+    if b > a:
+        # the series is written for a > b: swap the axes
+        Ey, Ex = ImageTerms(y, x, b, a, y0, x0, nimag)
+        return Ex, Ey
+
     if abs((a - b) / a) > 1e-3:
         g = sqrt(a * a - b * b)
 
-- 
2.43.0


From a2850760d2148b2431646dfc142225734eb1fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 45/50] fix: the Bassetti-Erskine field of a round beam could
 not be computed

---
 BassErsk.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index c7f63fa..24fed3c 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -17,7 +17,19 @@ def BassErsk(xin, yin, sigmax, sigmay):
 
     eps0 = 8.854187817620e-12
 
-    if sigmax > sigmay:
+    if sigmax == sigmay:
+
+        # round beam: the general formula is singular
+        r2 = x * x + y * y
+        if r2 > 0.:
+            factR = (1. - exp(-r2 / (2 * sigmax * sigmax))) / (2 * pi * eps0 * r2)
+        else:
+            factR = 0.
+
+        Ex = factR * xin
+        Ey = factR * yin
+
+    elif sigmax > sigmay:
 
         S = sqrt(2 * (sigmax * sigmax - sigmay * sigmay))
         factBE = 1 / (2 * eps0 * sqrt(pi) * S)
-- 
2.43.0


From 25beefcd839b220652b19dc922ea83cdf5f73391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 46/50] fix: flat_low_ene surfaces reflect the part of the
 yield which is not true secondaries

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..53256c0 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From 81284ca8130f3273a8c724076b665ff5b2f7af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 47/50] fix: load the SEY curve from the file that was found
 (sey_files folder)

---
 sec_emission_model_from_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..696b6f7 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -100,7 +100,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
-- 
2.43.0


From 92fa14fa7d50e23c84991f81dd9e719767c74d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 48/50] fix: Furman-Pivi surfaces draw the number of
 secondaries from the requested distribution

---
 sec_emission_model_furman_pivi.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 82bdc6a..808bbc9 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -332,6 +332,15 @@ class SEY_model_furman_pivi():
         cdf = cdf / area[-1]
         return cdf, area
 
+    def get_number_true_sec(self, delta_ts_prime):
+        """Returns the number of electrons emitted in each true secondary event."""
+        if self.choice == 'poisson':
+            return random.poisson(lam=delta_ts_prime)  # Using (45)
+        elif self.choice == 'binomial':
+            return random.binomial(self.M_cut, delta_ts_prime / self.M_cut)
+        else:
+            raise ValueError('choice must be either \'poisson\' or \'binomial\'')
+
     def get_energy_true_sec(self, nn, E_0):
         """Returns emission energies for true secondary electrons."""
         if self.use_ECLOUD_energy:
@@ -410,14 +419,14 @@ class SEY_model_furman_pivi():
                 delta_ts_prime = delta_ts[flag_truesec] / (1 - delta_e[flag_truesec] - delta_r[flag_truesec])  # delta_ts^prime in FP paper, eq. (39)
 
             # Decide how many MPs to be emitted
-            n_emit_truesec_MPs[flag_truesec] = random.poisson(lam=delta_ts_prime)  # Using (45)
+            n_emit_truesec_MPs[flag_truesec] = self.get_number_true_sec(delta_ts_prime)
             n_emit_truesec_MPs_flag_true_sec = n_emit_truesec_MPs[flag_truesec]
             # Cut above M_cut
             flag_above_th = (n_emit_truesec_MPs_flag_true_sec > self.M_cut)
             Nabove_th = np.sum(flag_above_th)
             i_attempt = 0
             while Nabove_th > 0:
-                n_emit_truesec_MPs_flag_true_sec[flag_above_th] = random.poisson(delta_ts_prime[flag_above_th])
+                n_emit_truesec_MPs_flag_true_sec[flag_above_th] = self.get_number_true_sec(delta_ts_prime[flag_above_th])
                 if i_attempt>10:
                     n_emit_truesec_MPs_flag_true_sec[flag_above_th] = np.clip(
                             n_emit_truesec_MPs_flag_true_sec[flag_above_th], 0, self.M_cut)
-- 
2.43.0


From 5801cf53eb69cbd78c0bb9e49de2a958f60cd367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 49/50] fix: Furman-Pivi surfaces conserve energy in events
 with three electrons or more

---
 sec_emission_model_furman_pivi.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 808bbc9..3c79ef2 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -363,6 +363,28 @@ class SEY_model_furman_pivi():
 
             return eps_vec * gammaincinv(p_n_vec, xx)
 
+    def get_energies_true_sec_event(self, nn, E_0):
+        """
+        Emission energies of all the electrons of each true secondary event,
+        where nn electrons are emitted and their sum is limited to E_0.
+        Returns the energies of the first electron of each event and those of
+        the other ones (event by event).
+        """
+        p_n_vec = np.array([self.p_n[int(ii - 1)] for ii in nn])
+        eps_vec = np.array([self.eps_n[int(ii - 1)] for ii in nn])
+
+        # The sum is gamma-distributed up to E_0, the shares do not depend on it
+        xx = random.rand(len(E_0)) * gammainc(nn * p_n_vec, E_0 / eps_vec)
+        xx[xx < 1e-12] = 0.0  # gammaincinv returns nan if xx is too small but not zero
+        En_event = np.minimum(eps_vec * gammaincinv(nn * p_n_vec, xx), E_0)
+
+        i_event_add = np.repeat(np.arange(len(nn)), nn - 1)
+        share = random.gamma(p_n_vec)
+        share_add = random.gamma(p_n_vec[i_event_add])
+        share_tot = share + np.bincount(i_event_add, weights=share_add, minlength=len(nn))
+
+        return En_event * share / share_tot, (En_event / share_tot)[i_event_add] * share_add
+
     def inverse_repeat(self, a, repeats, axis):
         """The inverse of numpy.repeat(a, repeats, axis)"""
         if isinstance(repeats, int):
@@ -463,7 +485,12 @@ class SEY_model_furman_pivi():
                 En_truesec_eV_add = self.get_energy_true_sec(nn=n_emit_truesec_MPs_extended, E_0=E_impact_eV_add)
 
                 # Ensure energy conservation in each event
-                if self.conserve_energy:
+                if self.conserve_energy and not self.use_ECLOUD_energy:
+                    # The energies of an event are drawn together: in the FP paper it is their sum which is limited
+                    n_event = n_emit_truesec_MPs_flag_true_sec[flag_above_zero]
+                    En_truesec_eV, En_truesec_eV_add = self.get_energies_true_sec_event(
+                        n_event, E_impact_eV[flag_truesec_and_above_zero])
+                elif self.conserve_energy:
                     En_truesec_eV_extended = np.repeat(En_truesec_eV, n_add[flag_truesec][flag_above_zero])  # Energy of replaced MPs
                     E_impact_eV_add = np.repeat(E_impact_eV[flag_truesec][flag_above_zero], n_add[flag_truesec][flag_above_zero])  # Energy of new MPs
                     En_emit_eV_event_add = En_truesec_eV_extended + En_truesec_eV_add  # Total energy emitted in each trusec event
-- 
2.43.0


From fde936f992f451ed868303c4ae8b9b71b4a6d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:27 +0000
Subject: [PATCH 50/50] fix: the surface parameters of one cloud replaced the
 defaults of the next on non-uniform chambers

---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..c2ff36c 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=float)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=float)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=float)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0

