From a0676391cb92af8a12150e6bb9aec403927d5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:10 +0000
Subject: [PATCH 01/48] fix: featurize: a file that cannot be read or loaded no
 longer aborts the batch

md5sum and auto_load_processed ran outside the per-file error handling, so
one unreadable file lost the whole command (no matrix, no status json).  The
error is now recorded in that file's entry and the other files are processed.
---
 beep/cmd.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..5421a91 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -840,16 +840,37 @@ def featurize(
         log_prefix = f"File {i + 1} of {n_files}"
 
         t0_file = time.time()
-        logger.debug(f"Hashing file '{file}' to MD5")
         op_result = {
             "walltime": None,
-            "processed_md5_chksum": md5sum(file),
-            "featurizers": []
+            "processed_md5_chksum": None,
+            "featurizers": [],
+            "traceback": None
         }
 
-        logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
-        logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+        try:
+            logger.debug(f"Hashing file '{file}' to MD5")
+            op_result["processed_md5_chksum"] = md5sum(file)
+
+            logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
+            structured_datapath = auto_load_processed(file)
+            logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
+
+        except KeyboardInterrupt:
+            logger.critical("Keyboard interrupt caught - exiting...")
+            ctx.exit(1)
+
+        except BaseException:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Could not be loaded: ({tbinfo[0].__name__}): {file}")
+
+            if ctx.obj.halt_on_error:
+                raise
+
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+            op_result["walltime"] = time.time() - t0_file
+            status_json["files"][file] = op_result
+            i += 1
+            continue
 
         for fclass, f_hyperparams in fclass_tuples:
             fclass_name = fclass.__name__
-- 
2.43.0


From 61516ae8934be0e91479ac7e6563e5dd2d21ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:10 +0000
Subject: [PATCH 02/48] fix: a keyboard interrupt ends every command with exit
 status 1

click.Context.exit(1) was called on the class, so the handlers raised
AttributeError/exited with 0; feature matrix creation and protocol generation
swallowed the interrupt altogether.
---
 beep/cmd.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 5421a91..0120da8 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -920,7 +920,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -958,6 +958,9 @@ def featurize(
         feature_matrix_status["created"] = True
         feature_matrix_status["traceback"] = None
         feature_matrix_status["output"] = output_filename
+    except KeyboardInterrupt:
+        logger.critical("Keyboard interrupt caught - exiting...")
+        ctx.exit(1)
     except BaseException:
         if ctx.obj.halt_on_error:
             raise
@@ -1341,7 +1344,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1504,7 +1507,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1611,6 +1614,9 @@ def protocol(
             raise ProtocolException(f"'{err}: {msg}'")
         else:
             logger.info(f"Created {len(output_files)} protocol files in `{output_dir}`.")
+    except KeyboardInterrupt:
+        logger.critical("Keyboard interrupt caught - exiting...")
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 62f341e5bae7272f81ebbe7df37ba991a39a80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:49 +0000
Subject: [PATCH 03/48] fix: train/predict: a failed write of the output is
 recorded instead of losing the status json

---
 beep/cmd.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 0120da8..8571a26 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1368,10 +1368,21 @@ def train(
             output_filename = os.path.abspath(output_filename)
         else:
             output_filename = os.path.join(ctx.obj.cwd, default_filename)
-        dumpfn(blme, output_filename)
-        logger.info(f"Wrote model {model} to path: {output_filename}")
-        status_json["trained_model"]["created"] = True
-        status_json["trained_model"]["output"] = output_filename
+        try:
+            dumpfn(blme, output_filename)
+            logger.info(f"Wrote model {model} to path: {output_filename}")
+            status_json["trained_model"]["created"] = True
+            status_json["trained_model"]["output"] = output_filename
+        except KeyboardInterrupt:
+            logger.critical("Keyboard interrupt caught - exiting...")
+            ctx.exit(1)
+        except BaseException:
+            tbinfo = sys.exc_info()
+            logger.error(f"Model could not be written: ({tbinfo[0].__name__})")
+            status_json["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
 
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
     osj = ctx.obj.output_status_json
@@ -1521,10 +1532,21 @@ def predict(
     status_json["walltime"] = t1 - t0
 
     if predicted is not None:
-        predicted.to_json(output_filename)
-        status_json["predictions"]["created"] = True
-        status_json["predictions"]["output"] = output_filename
-        logger.info(f"Successfully wrote predicted dataframe to {output_filename}.")
+        try:
+            predicted.to_json(output_filename)
+            status_json["predictions"]["created"] = True
+            status_json["predictions"]["output"] = output_filename
+            logger.info(f"Successfully wrote predicted dataframe to {output_filename}.")
+        except KeyboardInterrupt:
+            logger.critical("Keyboard interrupt caught - exiting...")
+            ctx.exit(1)
+        except BaseException:
+            tbinfo = sys.exc_info()
+            logger.error(f"Predictions could not be written: ({tbinfo[0].__name__})")
+            status_json["traceback"] = traceback.format_exception(*tbinfo)
+
+            if ctx.obj.halt_on_error:
+                raise
 
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
     osj = ctx.obj.output_status_json
-- 
2.43.0


From 9a8b1084ab87869136ed8fab5503a21d0a06f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:49 +0000
Subject: [PATCH 04/48] fix: protocol: rows that could not be generated appear
 in the status json, halt-on-error halts

The failures returned by the generator were never put into the status json
(and, being dicts, could not have been its keys), and --halt-on-error was
ignored.
---
 beep/cmd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 8571a26..90fd64c 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1628,7 +1628,7 @@ def protocol(
     output_files, failures, result, message = [], [], "", {}
     try:
         results = generate_protocol_files_from_csv(csv_file, output_directory=output_dir)
-        output_files, file_generation_failures, result, message = results
+        output_files, failures, result, message = results
 
         if result == "error" or failures:
             msg = message["comment"]
@@ -1644,13 +1644,16 @@ def protocol(
         tbfmt = traceback.format_exception(*tbinfo)
         logger.error(f"Protocol generation failed with : ({tbinfo[0].__name__})")
         status_json["traceback"] = tbfmt
+
+        if ctx.obj.halt_on_error:
+            raise
     t1 = time.time()
 
     for of in output_files:
         status_json["protocol"][of] = {"generated": True}
 
-    for f in failures:
-        status_json["protocol"][f] = {"generated": False}
+    for n, f in enumerate(failures):
+        status_json["protocol"][f"failure_{n + 1}"] = {"generated": False, **f}
 
     status_json["walltime"] = t1 - t0
     status_json = add_metadata_to_status_json(status_json, ctx.obj.run_id, ctx.obj.tags)
-- 
2.43.0


From 71fe71ee9cf888f40d572f7b168f1e0ae4e1cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 05/48] fix: model: save the scaler the model was trained with

A reloaded model rescaled with a scaler fit on all samples of the feature
matrix, so a model from train_and_score (or with dropped nan targets) gave
other predictions after saving and loading.
---
 beep/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..e2d8f3e 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -511,6 +511,11 @@ class BEEPLinearModelExperiment(MSONable):
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
             },
+            "scaler_sklearn": {
+                "mean_": self.scaler.mean_.tolist(),
+                "var_": self.scaler.var_.tolist(),
+                "scale_": self.scaler.scale_.tolist(),
+            },
 
         }
 
@@ -558,6 +563,11 @@ class BEEPLinearModelExperiment(MSONable):
         model.coef_ = np.asarray(model_params["coef_"])
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
+
+        # The scaler was refit on the samples actually trained on, which are
+        # not necessarily all samples (e.g., train_and_score)
+        for attr, value in d.get("scaler_sklearn", {}).items():
+            setattr(o.scaler, attr, np.asarray(value))
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
         return o
 
-- 
2.43.0


From a3521fca7487cf672a735a1b7f67cd87da619ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 06/48] fix: model: predict no longer renames the columns of
 the caller's feature matrix

Predicting twice on one matrix failed, and a matrix saved after a prediction
had lost its hyperparameter hashes.
---
 beep/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/model.py b/beep/model.py
index e2d8f3e..7af15a5 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -446,8 +446,7 @@ class BEEPLinearModelExperiment(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
-        X.columns = cols_stripped
-        return X
+        return X.set_axis(cols_stripped, axis=1)
 
     @staticmethod
     def _impute_df(df, method="median"):
-- 
2.43.0


From 3ca8af970f5dbdcd055e92efe15d1b80b8f75de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 07/48] fix: model: predict returns the samples that were
 dropped, not all samples

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 7af15a5..7256f0e 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From 56303520445a43ae18feadb9518cca39a8a31506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 08/48] fix: train: alpha grid, nan thresholds and l1 ratios
 given on the command line reach the model

A complete alpha grid was silently ignored (and an incomplete one crashed),
and the thresholds and l1 ratios were passed under names the model does not
have, so any command using them failed.
---
 beep/cmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 90fd64c..6ed8725 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1273,8 +1273,8 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
-        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
+    if all(a is not None for a in alpha_params):
+        alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=int(n_alphas)).tolist()
     else:
         alphas = None
 
@@ -1282,15 +1282,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From 36e9e92e81aba96c8d231c6854e9c55c48072282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 09/48] fix: data splitter: save and reload imputation,
 exclusion columns and split threshold

A reloaded splitter lost them, so its data and any further split differed.
---
 beep/prediction/beep_data_splitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..ccfadbd 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -223,6 +223,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -331,10 +333,13 @@ class BEEPDataSplitter(MSONable):
             "train_feature_drop_nan_thresh": self.train_feature_drop_nan_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_nan_thresh,
             "drop_nan_training_targets": self.drop_nan_training_targets,
+            "impute_strategy": self.impute_strategy,
             "homogenize_features": self.homogenize_features,
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -349,10 +354,13 @@ class BEEPDataSplitter(MSONable):
             train_feature_drop_nan_thresh=d["train_feature_drop_nan_thresh"],
             train_sample_drop_nan_thresh=d["train_sample_drop_nan_thresh"],
             drop_nan_training_targets=d["drop_nan_training_targets"],
+            impute_strategy=d.get("impute_strategy", "median"),
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            exclusion_columns=d.get("exclusion_columns"),
+            drop_split_threshold=d.get("drop_split_threshold", 0.5)
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From 22751e1af8ae6a082cf9e9b7f2f5c262dc175a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 10/48] fix: project transfer: a listing page without objects
 is not an error

---
 beep/utils/project_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 384583b..d3eb9ac 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -63,7 +63,7 @@ class ProjectTransfer:
         paginator = client.get_paginator("list_objects_v2")
         result = paginator.paginate(Bucket=bucket, Delimiter="/", Prefix=prefix)
         for response in result:
-            object_names = object_names + response["Contents"]
+            object_names = object_names + response.get("Contents", [])
         return object_names
 
     def download_and_modify(self, object_names):
-- 
2.43.0


From 71626c0ff3de32653c7bef294042459bf01b3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 11/48] fix: project transfer: upload the complete, otherwise
 unchanged file

The modified copy was uploaded before it was flushed, so its tail was missing,
and text mode rewrote line endings and failed on non-UTF-8 exports.
---
 beep/utils/project_transfer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index d3eb9ac..697e413 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -83,15 +83,14 @@ class ProjectTransfer:
                 s3.download_file(
                     self.bucket, object_name, os.path.join(scratch_dir, name)
                 )
-                from_file = open(os.path.join(scratch_dir, name))
-                line = from_file.readline()
-                line = line.replace(self.input_project, self.output_project)
                 to_file_name = os.path.join(
                     scratch_dir, name.replace(self.input_project, self.output_project)
                 )
-                to_file = open(to_file_name, "w")
-                to_file.write(line)
-                shutil.copyfileobj(from_file, to_file)
+                with open(os.path.join(scratch_dir, name), "rb") as from_file, open(to_file_name, "wb") as to_file:
+                    line = from_file.readline()
+                    line = line.replace(self.input_project.encode(), self.output_project.encode())
+                    to_file.write(line)
+                    shutil.copyfileobj(from_file, to_file)
                 if self.dry_run:
                     output_bucket = "beep-sync-test-stage"
                 else:
-- 
2.43.0


From 191a60471fe5d1563329ff7ed8c1676f7590d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 12/48] fix: project transfer: a refused upload does not stop
 the other transfers

upload_file reports refusals as S3UploadFailedError.
---
 beep/utils/project_transfer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 697e413..2f63646 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -13,6 +13,7 @@ Options:
 
 """
 
+from boto3.exceptions import S3UploadFailedError
 from botocore.exceptions import ClientError
 import os
 import shutil
@@ -100,7 +101,7 @@ class ProjectTransfer:
                         directory, name.replace(self.input_project, self.output_project)
                     )
                     s3.upload_file(to_file_name, output_bucket, new_object_name)
-                except ClientError as e:
+                except (ClientError, S3UploadFailedError) as e:
                     print(e)
 
 
-- 
2.43.0


From 1cd0042797569ff0c7e62482e796a4cfd31cea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:33 +0000
Subject: [PATCH 13/48] fix: driving waveforms no longer change the default
 waveform configuration

Every later waveform generated with default settings in the process got the
limits of the last driving protocol.
---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..db2296b 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1343,7 +1343,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = MACCOR_WAVEFORM_CONFIG.copy()
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From 4859fd657c5ca70a3f8a1bad2ded7a97ae04087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:33 +0000
Subject: [PATCH 14/48] fix: generate_maccor_waveform_file leaves the caller's
 waveform table as it is

It rescaled the power column in place, so writing the same table twice with
another scale gave a different file.
---
 beep/protocol/maccor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index db2296b..5207fbe 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1471,6 +1471,7 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
     if mwf_config is None:
         mwf_config = MACCOR_WAVEFORM_CONFIG
 
+    df = df.copy()
     if "power" in df.columns:
         df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
-- 
2.43.0


From 966ac06d572ee547adb9e113f6f5ae52c6554e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 15/48] fix: structure: two inputs of one batch never share an
 output file

Inputs with the same base name in different directories overwrote each
other's auto-named output, and both were reported as structured into it.
---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 6ed8725..5eccdaf 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -584,6 +584,9 @@ def structure(
                     dp.structure(**params)
 
                 output_fname = output_files[i]
+                for other, other_result in status_json["files"].items():
+                    if other != f and other_result["output"] == output_fname:
+                        raise ValueError(f"Output '{output_fname}' was already written for '{other}'!")
                 dp.to_json_file(output_fname, omit_raw=no_raw)
                 op_result["structured"] = True
                 op_result["structuring_parameters"] = dp.structuring_parameters
-- 
2.43.0


From 37278a5b0219f164ca58cde94da6d725de272cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 16/48] fix: structure: arguments naming local files are
 prioritized over s3 keys, as documented

The bucket object was used instead, and its download overwrote the local file.
---
 beep/cmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 5eccdaf..0e36f7e 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -447,8 +447,11 @@ def structure(
         s3_keys_matched = []
         local_files = []
         for maybe_glob in files:
+            # local files are prioritized over identical s3 keys
+            if os.path.exists(maybe_glob):
+                local_files.append(maybe_glob)
             # add direct matches
-            if "*" not in maybe_glob:
+            elif "*" not in maybe_glob:
                 if maybe_glob in s3_keys:
                     s3_keys_matched.append(maybe_glob)
                 else:
-- 
2.43.0


From f8a0374e0ba09f8b31a25764be287e7f43bbd8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 17/48] fix: structure: a downloaded s3 object never overwrites
 another input of the command

Keys with the same base name (or that of a local input) were downloaded over
each other, and the last one was processed several times.
---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 0e36f7e..96ae269 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -469,6 +469,7 @@ def structure(
 
         logger.info(f"Found {len(s3_keys_matched)} matching files on s3")
         local_files_from_s3 = []
+        claimed = {os.path.abspath(f): f for f in local_files}
         for s3k in s3_keys_matched:
             s3k_basename = os.path.basename(s3k)
             pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
@@ -476,6 +477,8 @@ def structure(
             if not os.path.exists(pardir):
                 os.makedirs(pardir)
             s3k_local_fullname = os.path.join(pardir, s3k_basename)
+            if claimed.setdefault(s3k_local_fullname, s3k) != s3k:
+                raise ValueError(f"Downloading '{s3k}' would overwrite '{claimed[s3k_local_fullname]}'!")
             logger.info(f"Fetching {s3k} from {s3_bucket}")
             download_s3_object(s3_bucket, s3k, s3k_local_fullname)
             logger.info(f"Fetched s3 file {s3k_basename} to {s3k_local_fullname}")
-- 
2.43.0


From 2c92e96784a7ad06b828c0f69d0021c3e9d68eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 18/48] fix: featurize: intermediates of different combinations
 never overwrite each other

One featurizer with two sets of hyperparameters, or two files with the same
base name, wrote to one file name; the first one's checksum did not match.
---
 beep/cmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 96ae269..a611912 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -845,6 +845,7 @@ def featurize(
     }
     i = 0
     bfs = []
+    intermediates = set()
     for file in files:
         log_prefix = f"File {i + 1} of {n_files}"
 
@@ -920,6 +921,10 @@ def featurize(
                 if save_intermediates:
                     intermediate_filename = f"{fclass_name}-{os.path.basename(file)}"
                     output_path = os.path.join(output_dir, intermediate_filename)
+                    while output_path in intermediates:
+                        intermediate_filename = f"{fclass_name}-{len(intermediates) + 1}-{os.path.basename(file)}"
+                        output_path = os.path.join(output_dir, intermediate_filename)
+                    intermediates.add(output_path)
                     dumpfn(f, output_path)
                     logger.info(
                         f"{log_prefix}: Featurizer {fclass_name} features for '{file}' written to '{output_path}'")
-- 
2.43.0


From 0adcea0e3d14baa9bb1807e72af4c9164ec9bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 19/48] fix: datapath: an unstructured run reloads as
 unstructured

It came back with empty structured frames, so is_structured was True.
---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..3f5c1f6 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From 629a68e87938f089cc6d7a8a6fb2ba40661a3dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 20/48] fix: datapath: a run saved without its raw data reloads
 with all of its metadata

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 3f5c1f6..e0b66eb 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -434,7 +434,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         # support loads when raw_data not available
         if any([k not in d for k in ("raw_data", "metadata")]):
             raw_data = None
-            metadata = {k: d.get(k) for k in ("barcode", "protocol", "channel_id")}
+            metadata = d.get("metadata", {k: d.get(k) for k in ("barcode", "protocol", "channel_id")})
             is_legacy = True
         else:
             raw_data = pd.DataFrame(d["raw_data"])
-- 
2.43.0


From f8c3d69b5c763cb1f1fcf0d6d77ff7bc31325494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 21/48] fix: datapath: from_dict leaves the given dictionary as
 it is

---
 beep/structure/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index e0b66eb..74b7c11 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -421,7 +421,10 @@ class BEEPDatapath(abc.ABC, MSONable):
         Returns:
             beep.structure.ProcessedCyclerRun: deserialized ProcessedCyclerRun.
         """
+        d = dict(d)
         for obj, dtype_dict in STRUCTURE_DTYPES.items():
+            if d.get(obj) is not None:
+                d[obj] = dict(d[obj])
             for column, dtype in dtype_dict.items():
                 if d.get(obj) is not None:
                     if d[obj].get(column) is not None:
-- 
2.43.0


From e22ae54132298c00398809a27ab113510b3b08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 22/48] fix: datapath: summarizing cycles leaves the raw data
 without its helper column

The result of drop() was discarded, so raw_data gained time_since_cycle_start.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 74b7c11..292bf9d 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -857,7 +857,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             )
 
         # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
+        self.raw_data = self.raw_data.drop(columns=["time_since_cycle_start"])
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-- 
2.43.0


From b9439fd53ca086ea6c0398bfd6a21aa0994a1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 23/48] fix: pause detection does not depend on the host's time
 zone

mktime read the UTC times as local time, so a daylight-saving change of the
host during a test hid or invented an hour's pause.
---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 292bf9d..d6368ea 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -5,7 +5,7 @@ import os
 import abc
 import json
 import copy
-import time
+import calendar
 
 import pandas as pd
 import numpy as np
@@ -1446,7 +1446,7 @@ def get_max_paused_over_threshold(group, paused_threshold=3600):
     """
     date_time_objs = pd.to_datetime(group["date_time_iso"], format="mixed")
     date_time_float = [
-        time.mktime(t.timetuple()) if t is not pd.NaT else float("nan")
+        calendar.timegm(t.utctimetuple()) if t is not pd.NaT else float("nan")
         for t in date_time_objs
     ]
     date_time_float = pd.Series(date_time_float)
-- 
2.43.0


From 0e6d1b958ab5983d60da4d4a9af37683f2ce1b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 24/48] fix: battery archive timestamps do not depend on the
 host's time zone

---
 beep/structure/battery_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..f5bf885 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -104,7 +104,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         # convert date time string to
         dts = df["date_time"].apply(lambda x: datetime.strptime(x, dtfmt))
 
-        df["date_time"] = dts.apply(lambda x: x.timestamp())
+        df["date_time"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).timestamp())
         df["date_time_iso"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).isoformat())
 
         for column, dtype in cls.DATA_TYPES.items():
-- 
2.43.0


From 811abf74022af6bc705393317dd1ee3f4121e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:53 +0000
Subject: [PATCH 25/48] fix: DeltaQFastCharge uses the given n_nominal_cycles
 and leaves its hyperparameters alone

create_features overwrote the caller's (or the default) setting with 40.
---
 beep/features/core.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..c164bad 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -538,9 +538,6 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
 
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
-- 
2.43.0


From 3ea75444d51ee2d63e7569f2ca222e97bfcb456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 26/48] fix: model: features are dropped by the feature nan
 threshold, not the sample one

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 7256f0e..d598126 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From 35c291dfc05124d8adc128968b638ab690b721ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 27/48] fix: model: predict applies its sample threshold to the
 model's features only

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index d598126..0033884 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From c917687318bdff7a02dd0215668d4c6d21bb505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 28/48] fix: predict: a sample nan threshold of 0 overrides the
 model's, like any other

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index a611912..c2d53e0 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1516,7 +1516,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From 2830e74ad7ffa2e4ccb22bb9537c729dfc866a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 29/48] fix: every line of the json-lines log is valid json
 whatever the message contains

---
 beep/__init__.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/beep/__init__.py b/beep/__init__.py
index 08c1639..53df5f6 100644
--- a/beep/__init__.py
+++ b/beep/__init__.py
@@ -4,6 +4,8 @@ Top-level module for beep.  Put anything that should
 be available in the beep namespace here.
 """
 import os
+import copy
+import json
 import logging
 import sys
 from functools import partial
@@ -64,12 +66,23 @@ LOG_DIR = os.path.join(MODULE_DIR, "logs")
 if not os.path.isdir(LOG_DIR):
     os.mkdir(LOG_DIR)
 np.set_printoptions(precision=3)
+
+
+class JSONLinesFormatter(logging.Formatter):
+    """Formats every message as one valid line of json, whatever it contains."""
+
+    def formatMessage(self, record):
+        record = copy.copy(record)
+        record.message = json.dumps(record.message)[1:-1]
+        return super().formatMessage(record)
+
+
 # clear previous loggers/handlers/filters, if exists
 logger = logging.getLogger("beep")
 logger.handlers = []
 logger.filters = []
 formatter_stdout = logging.Formatter(**HUMAN_LOG_FMT)
-formatter_jsonl = logging.Formatter(**JSON_LOG_FMT)
+formatter_jsonl = JSONLinesFormatter(**JSON_LOG_FMT)
 
 # Stdout log will always be enabled
 hdlr = logging.StreamHandler(sys.stdout)
-- 
2.43.0


From e26852b2f89ff4bcc2f1f5d83d4c77f5baa79717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 30/48] fix: settings: a file with several techniques reloads
 and saves each of them once

---
 beep/protocol/biologic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..ad4ae35 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -75,9 +75,10 @@ class Settings(DashOrderedDict):
             )  # This +1 offset is based on the format seen in one file
             end = start + step_entry_length
             technique_pos.append((technique_num, start, end))
-            lines_to_parse = [
+            extra_lines = [
                 i for i in extra_lines if i not in list(range(start, end))
             ]
+        lines_to_parse = extra_lines
 
         section = "Metadata"
         metadata = []
-- 
2.43.0


From 825d38722d603c5f8dd9e950b931200ca9912cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 31/48] fix: procedure: the file is written in the encoding
 asked for and declared in it

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 5207fbe..dd336e1 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -140,7 +140,7 @@ class Procedure(DashOrderedDict):
         contents = "\n".join([line0, line1, remainder])
         contents = self.fixup_empty_elements(contents)
         contents += "\n"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding=encoding) as f:
             f.write(contents)
 
     @staticmethod
-- 
2.43.0


From 75a43caf6247bcce5c5fdfcd2c7c07ac0ab07382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:51 +0000
Subject: [PATCH 32/48] fix: converting a procedure to an arbin schedule leaves
 the procedure as it is

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..4ee3d7a 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -304,6 +304,8 @@ class ProcedureToSchedule:
                         ("Value", step_abs["Ends"]["EndEntry"]["Value"]),
                     ]
                 )
+                # the caller's step keeps its single end entry
+                step_abs = deepcopy(step_abs)
                 step_abs["Ends"]["EndEntry"] = [
                     loop_addendum,
                     step_abs["Ends"]["EndEntry"],
-- 
2.43.0


From 63196340a3f62d44f40fae27184e6c9e0e7db8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:59 +0000
Subject: [PATCH 33/48] fix: schedule: brackets inside a value are not taken
 for a section heading

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3544b83..dcaf088 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -59,7 +59,7 @@ class Schedule(DashOrderedDict):
             text = f.read()
             text = text.decode(encoding)
 
-        split_text = re.split(r"\[(.+)\]", text)
+        split_text = re.split(r"^\[(.+)\]\s*$", text, flags=re.MULTILINE)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
             body_lines = re.split(r"[\r\n]+", body.strip())
             body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
-- 
2.43.0


From ae4b3ae51e25b25256b551971326dc075e865832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:22 +0000
Subject: [PATCH 34/48] fix: settings: a value that does not fit its column is
 refused instead of saved unreadably

---
 beep/protocol/biologic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index ad4ae35..d6f915c 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -163,6 +163,10 @@ class Settings(DashOrderedDict):
                     line = tq_key.ljust(column_width)
                     for step in data["Technique"][tq_number]["Step"].keys():
                         var = str(data["Technique"][tq_number]["Step"][step][tq_key])
+                        if len(var) > column_width:
+                            raise ValueError(
+                                "{} of step {} is wider than a column of the file: {}".format(tq_key, step, var)
+                            )
                         line = line + var.ljust(column_width)
                     blocks.append(line)
                 continue
-- 
2.43.0


From 28ccdb8cc430d19e3c6051e05c40a29a7af01fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:26 +0000
Subject: [PATCH 35/48] fix: procedure to schedule: steps with a single end
 keep their limit, loops over the first steps and reports without ends convert

---
 beep/protocol/maccor_to_arbin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 4ee3d7a..52b8f63 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -125,7 +125,7 @@ class ProcedureToSchedule:
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
                 i = 1
-                while (indx - i) > 1:
+                while (indx - i) >= 0:
                     if self.procedure_dict_steps[abs(indx - i)][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
@@ -327,7 +327,7 @@ class ProcedureToSchedule:
 
         # Ends
         if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+            if isinstance(step_abs["Ends"]["EndEntry"], dict):
                 blank_step["m_uLimitNum"] = 1
                 end = step_abs["Ends"]["EndEntry"]
                 end_index = 0
@@ -363,24 +363,25 @@ class ProcedureToSchedule:
             blank_step[limit_key] = self.add_blank_limit()
 
         # Reports
+        n_ends = blank_step["m_uLimitNum"]
         if step_abs["Reports"] is not None:
             if isinstance(step_abs["Reports"]["ReportEntry"], dict):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
                 report = step_abs["Reports"]["ReportEntry"]
                 report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
+                limit_start = n_ends
                 limit_key = "Limit{}".format(str(report_index + limit_start))
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
+            elif isinstance(step_abs["Reports"]["ReportEntry"], list):
                 blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
                     step_abs["Reports"]["ReportEntry"]
                 )
                 for report_index, report in enumerate(
                     step_abs["Reports"]["ReportEntry"]
                 ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
+                    limit_start = n_ends
                     limit_key = "Limit{}".format(str(report_index + limit_start))
                     blank_step[limit_key] = OrderedDict(
                         self.convert_report_to_logging_limit(report)
-- 
2.43.0


From a8da14c2db3350be4d04fde8b4b399546e4cf1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:17 +0000
Subject: [PATCH 36/48] fix: datapath: the summary in memory has the row labels
 it has when saved and reloaded

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index d6368ea..cb9a656 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -556,7 +556,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         self.structured_summary = self.summarize_cycles(
             nominal_capacity=nominal_capacity,
             full_fast_charge=full_fast_charge,
-        )
+        ).reset_index(drop=True)  # row labels as they are after saving and reloading
 
         self.structuring_parameters = {
             "v_range": v_range,
-- 
2.43.0


From b97550ea686fdb18969976fe098320b197971424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:55 +0000
Subject: [PATCH 37/48] fix: datapath: a failed structuring changes nothing, a
 repeated one leaves nothing of the former

---
 beep/structure/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index cb9a656..3f259d9 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -532,9 +532,10 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         """
 
+        diagnostic_summary = diagnostic_data = None
         if self.diagnostic:
-            self.diagnostic_summary = self.summarize_diagnostic()
-            self.diagnostic_data = self.interpolate_diagnostic_cycles(
+            diagnostic_summary = self.summarize_diagnostic()
+            diagnostic_data = self.interpolate_diagnostic_cycles(
                 time_resolution=diagnostic_resolution,
                 voltage_resolution=diagnostic_resolution
             )
@@ -545,7 +546,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             f"Beginning structuring along charge axis '{charge_axis}' and discharge "
             f"axis '{discharge_axis}'."
         )
-        self.structured_data = self.interpolate_cycles(
+        structured_data = self.interpolate_cycles(
             v_range=v_range,
             resolution=resolution,
             charge_axis=charge_axis,
@@ -553,11 +554,17 @@ class BEEPDatapath(abc.ABC, MSONable):
             exclude_cycles=exclude_cycles
         )
 
-        self.structured_summary = self.summarize_cycles(
+        structured_summary = self.summarize_cycles(
             nominal_capacity=nominal_capacity,
             full_fast_charge=full_fast_charge,
         ).reset_index(drop=True)  # row labels as they are after saving and reloading
 
+        # nothing is set before everything succeeded, nothing remains of an earlier structuring
+        self.diagnostic_summary = diagnostic_summary
+        self.diagnostic_data = diagnostic_data
+        self.structured_data = structured_data
+        self.structured_summary = structured_summary
+
         self.structuring_parameters = {
             "v_range": v_range,
             "resolution": resolution,
-- 
2.43.0


From f0533d2bacdb6e54ebc0b8986a4391839f16c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:44 +0000
Subject: [PATCH 38/48] fix: reloaded data sets of a splitter keep X and y rows
 aligned

---
 beep/prediction/beep_data_splitter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index ccfadbd..631f6b7 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -53,10 +53,16 @@ class BEEPDataset(MSONable):
 
     @classmethod
     def from_dict(cls, d):
-        dataset = cls(pd.DataFrame.from_dict(d["train_X"]), pd.DataFrame.from_dict(
-            d["train_y"]), pd.DataFrame.from_dict(d["test_X"]), pd.DataFrame.from_dict(d["test_y"]))
-
-        return dataset
+        frames = []
+        for key in ("train_X", "train_y", "test_X", "test_y"):
+            df = pd.DataFrame.from_dict(d[key])
+            # pandas sorts the rows of a frame of a single column; keep the
+            # saved order, so that rows of X and y stay aligned
+            if len(df.columns):
+                df = df.loc[list(d[key][df.columns[0]])]
+            frames.append(df)
+
+        return cls(*frames)
 
 
 class BEEPDataSplitter(MSONable):
-- 
2.43.0


From 02066a89f21815f42294979f143722d4b96ca14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:20 +0000
Subject: [PATCH 39/48] fix: a failing split() leaves no incomplete list of
 data sets

---
 beep/prediction/beep_data_splitter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 631f6b7..4371ab1 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -237,7 +237,8 @@ class BEEPDataSplitter(MSONable):
         """
         Split the data into a list of BEEPDataset objects
         """
-        self.datasets = []
+        # A split that fails halfway leaves no part of it behind
+        datasets = []
 
         if self.split_columns is None:
             self.kfold = KFold(n_splits=self.n_splits, shuffle=True, random_state=self.random_state)
@@ -257,7 +258,7 @@ class BEEPDataSplitter(MSONable):
                     test_y
                     )
 
-                self.datasets.append(dataset)
+                datasets.append(dataset)
         else:
 
             self.kfold = KFold(n_splits=self.n_splits, shuffle=True, random_state=self.random_state)
@@ -282,7 +283,8 @@ class BEEPDataSplitter(MSONable):
                     test_y
                     )
 
-                self.datasets.append(dataset)
+                datasets.append(dataset)
+        self.datasets = datasets
         return self.datasets
 
     @staticmethod
-- 
2.43.0


From 4cc502a3346a04cf860f9f639e4c2b994620972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 40/48] fix: summarising cycles never adds a column to the raw
 data

---
 beep/structure/base.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 3f259d9..10839e8 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -845,27 +845,26 @@ class BEEPDatapath(abc.ABC, MSONable):
 
         # Compute time since start of cycle in minutes. This comes handy
         # for featurizing time-temperature integral
-        self.raw_data["time_since_cycle_start"] = pd.to_datetime(
-            self.raw_data["date_time_iso"], format="mixed"
+        # (in a copy: nothing is added to the raw data, even if this fails)
+        raw_data = self.raw_data.copy()
+        raw_data["time_since_cycle_start"] = pd.to_datetime(
+            raw_data["date_time_iso"], format="mixed"
         ) - pd.to_datetime(
-            self.raw_data.groupby("cycle_index")["date_time_iso"].transform(
+            raw_data.groupby("cycle_index")["date_time_iso"].transform(
                 "first"), format="mixed"
         )
-        self.raw_data["time_since_cycle_start"] = (self.raw_data[
-                                                       "time_since_cycle_start"] / np.timedelta64(
+        raw_data["time_since_cycle_start"] = (raw_data[
+                                                  "time_since_cycle_start"] / np.timedelta64(
             1, "s")) / 60
 
         # Group by cycle index and integrate time-temperature
         # using a lambda function.
-        if "temperature" in self.raw_data.columns:
-            summary["time_temperature_integrated"] = self.raw_data.groupby(
+        if "temperature" in raw_data.columns:
+            summary["time_temperature_integrated"] = raw_data.groupby(
                 "cycle_index").apply(
                 lambda g: integrate.trapz(g.temperature, x=g.time_since_cycle_start)
             )
 
-        # Drop the time since cycle start column
-        self.raw_data = self.raw_data.drop(columns=["time_since_cycle_start"])
-
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
             get_max_paused_over_threshold)
-- 
2.43.0


From 2bf7a5919bff2e2cfb69a40864d961a0de5cdeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 41/48] fix: featurizers of diagnostic cycles leave the data
 set as it was

---
 beep/features/core.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index c164bad..4c3d98f 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import pandas as pd
 from scipy.stats import skew, kurtosis
@@ -41,25 +42,27 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
     def create_features(self):
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # (on a copy: the datapath itself keeps its data)
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
 
         hppc_r = pd.DataFrame()
         # the 9 by 6 dataframe
         df_dr = featurizer_helpers.get_dr_df(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
         # transform this dataframe to be 1 by 54
         columns = df_dr.columns
@@ -70,14 +73,14 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # the variance of ocv features
         hppc_ocv = featurizer_helpers.get_hppc_ocv(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             parameters_path=self.hyperparameters["parameters_path"]
         )
 
         # the v_diff features
         v_diff = featurizer_helpers.get_v_diff(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             self.hyperparameters["soc_window"],
             self.hyperparameters["parameters_path"]
@@ -355,17 +358,19 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         """
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # (on a copy: the datapath itself keeps its data)
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
-        diag_intrp = self.datapath.diagnostic_data
+        diag_intrp = datapath.diagnostic_data
 
         X = pd.DataFrame(np.zeros((1, 54)))
 
@@ -374,13 +379,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
                                         self.hyperparameters[
                                             "diagnostic_cycle_type"]].unique()
         step_dict_0 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][0],
             parameters_path=self.hyperparameters["parameters_path"]
         )
         step_dict_1 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][1],
             parameters_path=self.hyperparameters["parameters_path"]
-- 
2.43.0


From 8f6668c53d81aa1e8284589f42f8766d4f9c765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:29 +0000
Subject: [PATCH 42/48] fix: project transfer: an object whose name needs no
 change is not emptied

---
 beep/utils/project_transfer.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 2f63646..84b0875 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -81,13 +81,11 @@ class ProjectTransfer:
             for object_name in object_names:
                 directory, name = os.path.split(object_name)
                 s3 = boto3.client("s3")
-                s3.download_file(
-                    self.bucket, object_name, os.path.join(scratch_dir, name)
-                )
-                to_file_name = os.path.join(
-                    scratch_dir, name.replace(self.input_project, self.output_project)
-                )
-                with open(os.path.join(scratch_dir, name), "rb") as from_file, open(to_file_name, "wb") as to_file:
+                # fixed names, as the name of an object may be the same with and without the replacement
+                from_file_name = os.path.join(scratch_dir, "downloaded")
+                to_file_name = os.path.join(scratch_dir, "modified")
+                s3.download_file(self.bucket, object_name, from_file_name)
+                with open(from_file_name, "rb") as from_file, open(to_file_name, "wb") as to_file:
                     line = from_file.readline()
                     line = line.replace(self.input_project.encode(), self.output_project.encode())
                     to_file.write(line)
-- 
2.43.0


From 78cb29ac69cf3fdd8575cd98079e810c5afddfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 43/48] fix: revert 0e6d1b9: pandas timestamps already are
 independent of the host's time zone

---
 beep/structure/battery_archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index f5bf885..53999b7 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -104,7 +104,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         # convert date time string to
         dts = df["date_time"].apply(lambda x: datetime.strptime(x, dtfmt))
 
-        df["date_time"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).timestamp())
+        df["date_time"] = dts.apply(lambda x: x.timestamp())
         df["date_time_iso"] = dts.apply(lambda x: x.replace(tzinfo=pytz.UTC).isoformat())
 
         for column, dtype in cls.DATA_TYPES.items():
-- 
2.43.0


From 67e422736e0f826cd038b4b619be79f6a8ec837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:34 +0000
Subject: [PATCH 44/48] fix: maccor: impedance runs can be loaded, in the order
 of their names

---
 beep/structure/maccor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..6c61528 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -159,10 +159,10 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             # todo: replace with logging
             print(f"Looking in directory {self.paths['raw']} for EIS runs, as no paths specified to `load_eis`.")
             eis_pattern = ".*.".join(self.paths["raw"].rsplit(".", 1))
-            paths = glob(eis_pattern)
+            paths = sorted(glob(eis_pattern))
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From 91f0cfd9d3bdea464cc3dd4ada8eb485277c3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:43 +0000
Subject: [PATCH 45/48] fix: neware: loading does not change the working
 directory all threads share

---
 beep/structure/neware.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/beep/structure/neware.py b/beep/structure/neware.py
index 1c270bd..8ba7139 100644
--- a/beep/structure/neware.py
+++ b/beep/structure/neware.py
@@ -2,9 +2,11 @@
 
 """
 
+import os
+from tempfile import TemporaryDirectory
+
 import numpy as np
 import pandas as pd
-from monty.tempfile import ScratchDir
 
 from beep.structure.base import BEEPDatapath
 from beep.structure.maccor import MaccorDatapath
@@ -27,16 +29,18 @@ class NewareDatapath(BEEPDatapath):
         """
         ir_column_name = '"DCIR(O)"'
         with open(filename, encoding="ISO-8859-1") as input:
-            with ScratchDir("."):
+            # The process's working directory is shared by all of its threads
+            # and thus not changed
+            with TemporaryDirectory(dir=os.getcwd()) as scratch_dir:
                 cycle_header = input.readline().replace("\t", "")
-                cycle_file = open("cycle_file.csv", "a", encoding="ISO-8859-1")
+                cycle_file = open(os.path.join(scratch_dir, "cycle_file.csv"), "a", encoding="ISO-8859-1")
                 encoded_string = cycle_header.encode("ascii", "ignore")
                 cycle_header = encoded_string.decode()
                 cycle_file.write(cycle_header)
 
                 step_header = input.readline().replace("\t", "")
                 ir_index = step_header.split(",").index(ir_column_name)
-                step_file = open("step_file.csv", "a", encoding="ISO-8859-1")
+                step_file = open(os.path.join(scratch_dir, "step_file.csv"), "a", encoding="ISO-8859-1")
                 encoded_string = step_header.encode("ascii", "ignore")
                 step_header = encoded_string.decode()
                 step_file.write(step_header)
@@ -47,7 +51,7 @@ class NewareDatapath(BEEPDatapath):
                 record_header[1] = step_header.split(",")[1]
                 record_header[22] = ir_column_name
                 record_header = ",".join(record_header)
-                record_file = open("record_file.csv", "a", encoding="ISO-8859-1")
+                record_file = open(os.path.join(scratch_dir, "record_file.csv"), "a", encoding="ISO-8859-1")
                 encoded_string = record_header.encode("ascii", "ignore")
                 record_header = encoded_string.decode()
                 record_file.write(record_header)
@@ -76,7 +80,8 @@ class NewareDatapath(BEEPDatapath):
 
                 # Read in the data and convert the column values to MKS units
                 data = pd.read_csv(
-                    "record_file.csv", sep=",", skiprows=0, encoding="ISO-8859-1"
+                    os.path.join(scratch_dir, "record_file.csv"),
+                    sep=",", skiprows=0, encoding="ISO-8859-1"
                 )
                 data = data.loc[:, ~data.columns.str.contains("Unnamed")]
                 data["Time(h:min:s.ms)"] = data["Time(h:min:s.ms)"].apply(
-- 
2.43.0


From 9f26c587e6fc0cdadb8661312a09c3d8f1438c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:43 +0000
Subject: [PATCH 46/48] fix: structure: two commands may create the download
 cache at the same time

---
 beep/cmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c2d53e0..f0fbb0e 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -474,8 +474,7 @@ def structure(
             s3k_basename = os.path.basename(s3k)
             pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
             pardir = os.path.abspath(pardir)
-            if not os.path.exists(pardir):
-                os.makedirs(pardir)
+            os.makedirs(pardir, exist_ok=True)
             s3k_local_fullname = os.path.join(pardir, s3k_basename)
             if claimed.setdefault(s3k_local_fullname, s3k) != s3k:
                 raise ValueError(f"Downloading '{s3k}' would overwrite '{claimed[s3k_local_fullname]}'!")
-- 
2.43.0


From 2e45965431f2c37469fd8e5ade5b0ac12233d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 47/48] fix: protocols: two commands may create the waveform
 directory at the same time

---
 beep/protocol/maccor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index dd336e1..bba6b30 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1348,8 +1348,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
 
-    if not os.path.exists(waveform_directory):
-        os.makedirs(waveform_directory)
+    os.makedirs(waveform_directory, exist_ok=True)
 
     mwf_config["value_scale"] = reg_params["max_profile_power"] * reg_params["power_scaling"]
     mwf_config["charge_limit_value"] = reg_params["profile_charge_limit"]
@@ -1432,8 +1431,7 @@ def insert_charging_parametersv1(reg_params, waveform_directory=None, max_c_rate
     else:
         raise NotImplementedError
 
-    if not os.path.exists(waveform_directory):
-        os.makedirs(waveform_directory)
+    os.makedirs(waveform_directory, exist_ok=True)
 
     mwf_config["value_scale"] = reg_params["capacity_nominal"] * max(df_charge["current"])
     mwf_config["charge_limit_value"] = reg_params["charge_cutoff_voltage"] - reg_params["charge_voltage_offset_1"]
-- 
2.43.0


From cf8fadc34b77ef450697c37290e3d5aeb5ff495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 48/48] fix: project transfer does not change the working
 directory all threads share

---
 beep/utils/project_transfer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 84b0875..5dcc516 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -17,8 +17,8 @@ from boto3.exceptions import S3UploadFailedError
 from botocore.exceptions import ClientError
 import os
 import shutil
+from tempfile import TemporaryDirectory
 import boto3
-from monty.tempfile import ScratchDir
 
 
 class ProjectTransfer:
@@ -77,7 +77,7 @@ class ProjectTransfer:
             object_names (list): List of object names in S3 that should be transferred to the output project.
 
         """
-        with ScratchDir(".") as scratch_dir:
+        with TemporaryDirectory(dir=os.getcwd()) as scratch_dir:
             for object_name in object_names:
                 directory, name = os.path.split(object_name)
                 s3 = boto3.client("s3")
-- 
2.43.0

