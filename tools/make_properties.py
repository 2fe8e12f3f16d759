"""Writes /verif/properties.jsonl (kept as code so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CLI = "beep/cmd.py"
SKIP = "Every CLI test of the repository is skipped, and no test injects a fault: "

p("C01", "One bad file never spoils the rest of a structuring batch",
  "In a batch structuring (or validation-only) command run without halt-on-error, whatever goes wrong with one raw file - missing, torn, corrupt or invalid content, an I/O, disk-full or allocation failure while it is read or its output is written - the command still exits successfully and every other file (distinct inputs, distinct output names) gets exactly the report entry and output it gets when it is processed alone. The status report holds exactly one entry per distinct input, and the entry of every file that did not succeed carries the error.",
  ["inputs", "fault_sequences", "schedules"],
  "for every batch of raw files, option set, position of bad files and placement of I/O faults",
  SKIP + "isolation is a statement over every position and kind of failure in a batch.",
  [CLI, "beep/structure/cli.py", "beep/structure/base.py"],
  [("per-file try/except around hash, load, validate, structure, write", "beep/cmd.py:structure")],
  ["exit code", "status json", "output files"])

p("C02", "Structuring reports success only for complete, matching outputs",
  "For every file that a structuring status report marks as structured, the named output file exists, was written for that input and no other in the batch, and reloads in a new process to exactly the data obtained by structuring that raw file with the requested options, and the recorded raw and output checksums, schema and parameters describe those very files. A file whose load, validation, structuring or write failed is never marked structured, and a crash or failed write never leaves a file that reloads as a complete result with different content.",
  ["inputs", "fault_sequences", "crash_points", "configurations"],
  "for every batch, option set, failing read or write, disk-full point, torn write and crash point",
  SKIP + "the claim is about every I/O failure and crash point between reading a file and publishing its report.",
  [CLI, "beep/structure/base.py", "beep/structure/cli.py"],
  [("status fields set only after the write returned", "beep/cmd.py:structure"), ("json dump of the datapath", "beep/structure/base.py:to_json_file")],
  ["status json", "output files"])

p("C03", "One bad file or featurizer never spoils the rest of a featurizing batch",
  "In a featurizing command run without halt-on-error, whatever goes wrong with one structured file or with one featurizer on one file - unreadable, torn or unstructured input, a featurizer that is inapplicable or fails, an I/O or allocation failure - the command still exits successfully and every other file-featurizer combination (each file and featurizer given once) gets exactly the outcome and values it gets alone. The status report holds one entry per distinct input with one result per requested featurizer (with its name and full hyperparameters), or the error that kept the file from being loaded, and every combination that did not succeed carries its error.",
  ["inputs", "fault_sequences"],
  "for every batch of structured files, featurizer list with hyperparameters, and placement of failures",
  SKIP + "isolation quantifies over all failing combinations and fault points.",
  [CLI, "beep/features/base.py", "beep/features/core.py"],
  [("per-featurizer try/except", "beep/cmd.py:featurize")],
  ["exit code", "status json"])

p("C04", "The feature matrix holds exactly the features that were created",
  "A featurizing command reports its feature matrix as created only if the named file exists and reloads completely; it then has one row per structured file with at least one successful featurizer and, for each combination reported as featurized, exactly the values that featurizer produces on that file alone, under a column name that identifies feature, featurizer and hyperparameters, and nothing from combinations that failed. Every intermediate file the report names exists, matches its recorded checksum and holds that combination's features.",
  ["inputs", "fault_sequences", "crash_points"],
  "for every batch, featurizer list, failing combination, failing or torn write and crash point",
  "The matrix tests join a handful of prepared featurizers in memory; none goes through files, failures or restarts.",
  [CLI, "beep/features/base.py"],
  [("collection of successful featurizers", "beep/cmd.py:featurize"), ("join by structured file and operation id", "beep/features/base.py:BEEPFeatureMatrix.__init__")],
  ["matrix file", "intermediate files", "status json"])

p("C05", "Halt-on-error and interrupts stop a command at once with a failure exit",
  "With halt-on-error, the first error in any operation or sub-operation of a structuring, featurizing, training, prediction or protocol command ends the whole command with a non-zero exit before any later input file is processed; without it, a keyboard interrupt at any point still ends the command promptly with a non-zero exit and no later input file is processed. When nothing fails, halt-on-error changes nothing: exit status, report and outputs are those of the same command without it.",
  ["inputs", "fault_sequences", "schedules"],
  "for every command, every input batch, every failing step and every instant at which an interrupt can arrive",
  SKIP + "interrupt arrival is a scheduling choice that no test makes.",
  [CLI], [("halt flag re-raise", "beep/cmd.py"), ("interrupt handlers", "beep/cmd.py")],
  ["exit code", "output files"])

p("C06", "Each command leaves one truthful, complete status report and log",
  "Every command given a status file that exits successfully has written exactly one complete, reloadable status document for that command, replacing any older one, with its operation type, the run id and tags as given, the tool version and the time of the operation in UTC, whatever failed inside the command. A requested log file only ever grows - earlier runs' lines survive - and contains one well-formed line per message of this run in order; neither depends on jumps of the host clock, other than the recorded times.",
  ["inputs", "fault_sequences", "configurations", "histories"],
  "for every command, tag/run-id choice, internal failure, clock setting and jump, and history of earlier commands using the same status and log files",
  SKIP + "clock behaviour and repeated commands on one log are never exercised.",
  [CLI, "beep/__init__.py"], [("metadata block", "beep/cmd.py:add_metadata_to_status_json"), ("log handler", "beep/cmd.py:cli")],
  ["status json", "log file"])

p("C07", "Training and prediction reports tell the truth under every fault",
  "A training or prediction command reports a model or predictions as created only if the named file exists, is complete and is exactly what its recorded input files and options give; otherwise it reports nothing created, records the error and - without halt-on-error - exits successfully, or fails with a non-zero exit when its inputs cannot even be opened and hashed. The input checksums recorded are those of the files used, and a prediction made from the saved model file covers exactly the samples of the feature matrix that satisfy the sample threshold.",
  ["inputs", "fault_sequences", "crash_points", "configurations"],
  "for every feature/target matrix, model type and option set, failing read or write and crash point",
  SKIP + "no test runs train or predict through files with any failure.",
  [CLI, "beep/model.py"], [("try block and created flags", "beep/cmd.py:train, predict")],
  ["status json", "model file", "prediction file"])

p("C08", "Saved battery data reloads unchanged, or refuses to load",
  "A battery dataset - raw or structured, with or without its raw part, diagnostics or metadata - that was saved without error reloads in a new process with the same raw data, structured data, summaries, diagnostic configuration, metadata, structuring parameters, schema and structured/unstructured state, and gives the same results when used further; saving it again changes nothing. A saved file torn or damaged by a crash, full disk or lost tail makes loading fail and never yields different data, and no save, failed or not, alters the dataset in memory (data with metadata JSON cannot represent may be refused).",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "for every dataset, sequence of structure/unstructure/save/load steps, and every crash or write-failure point",
  "The serialization tests round-trip a few fixed files inside one process with no fault.",
  ["beep/structure/base.py", "beep/structure/base_eis.py", "beep/structure/diagnostic.py", "beep/structure/cli.py"],
  [("as_dict/from_dict/to_json_file/from_json_file", "beep/structure/base.py")], ["reloaded object"])

p("C09", "Saved features, matrices, splits and models reload to the same answers",
  "A featurizer result, feature matrix, dataset split or trained model (JSON-representable hyperparameters, distinct column names, at least one feature) saved without error reloads in a new process to one with the same features, labels, parameters and split, and a reloaded model gives for every feature matrix the same predictions and the same dropped samples as the model that was saved, however it was trained. Torn or damaged files make loading fail and never yield different values.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "for every feature set, training mode, option set, prediction matrix, save/reload history and crash or write-failure point",
  "One serialization test on one model trained in one mode; train-on-fraction and dropped-target modes are never reloaded.",
  ["beep/model.py", "beep/features/base.py", "beep/prediction/beep_data_splitter.py"],
  [("as_dict/from_dict of model", "beep/model.py"), ("as_dict/from_dict of featurizer and matrix", "beep/features/base.py"), ("splitter serialization", "beep/prediction/beep_data_splitter.py")],
  ["reloaded object", "predictions"])

p("C10", "Bucket inputs: the selected objects, complete, and never over local files",
  "A structuring command on a storage bucket processes exactly the arguments that name existing local files plus the bucket objects whose keys equal or match the other arguments, each with the object's exact bytes, placed in the working directory or the configured cache; an argument that exists locally is read locally and never overwritten by a bucket object of the same name. If listing or any download fails, an argument matches nothing, or two selected objects (or an object and a local argument) would share one local name, the command fails before processing instead of running on missing or partial data.",
  ["inputs", "fault_sequences", "configurations"],
  "for every bucket content, key/glob argument list, cache configuration, page size, and listing/transfer failure or delay",
  "The S3 path has no running test at all.",
  [CLI, "beep/utils/s3.py"], [("key matching and download", "beep/cmd.py:structure"), ("list/download helpers", "beep/utils/s3.py")],
  ["status json", "downloaded files", "bucket access log"])

p("C11", "Protocol batches account for every row and rows do not affect each other",
  "Generating protocols from a parameter table whose rows name distinct files yields for each supported row one file, byte-identical to that row generated on its own (apart from quantities defined by the row's position), and for each row with an unsupported template one recorded failure (a row whose parameters contradict each other makes the whole call raise instead); the returned lists, the result flag and counts, the names list and the status report agree with the files on disk and together cover every row exactly once. Rows with the same parameters give the same files whatever was generated before in the same process, and when a file cannot be written the command never reports it as generated.",
  ["inputs", "histories", "fault_sequences"],
  "for every table, row order, mix of supported/unsupported templates, sequence of earlier generations and write failure",
  "Tests generate a few fixed tables once per process and never compare against rows generated alone.",
  ["beep/protocol/generate_protocol.py", "beep/protocol/maccor.py", "beep/protocol/biologic.py", "beep/utils/waveform.py", CLI],
  [("row loop with success/failure lists", "beep/protocol/generate_protocol.py"), ("waveform insertion", "beep/protocol/maccor.py")],
  ["generated files", "return value", "status json"])

p("C12", "Results do not depend on what the process did before",
  "Loading, validating, structuring, featurizing, matrix building, splitting, training, predicting, waveform and protocol generation give, for given inputs and options, the same result on first use, on repeated use, and after any sequence of other operations - successful or failed - in the same process as in a fresh process. None of them modifies the objects, default settings or configuration its caller passed in or that later calls rely on (a splitter that homogenises features renames the columns of the matrix it is given, by design).",
  ["histories", "fault_sequences", "schedules"],
  "for every sequence of operations, including failing ones and repeats on the same object",
  "Tests call each operation once or twice on fresh objects.",
  ["beep/structure/base.py", "beep/features/base.py", "beep/model.py", "beep/prediction/beep_data_splitter.py", "beep/protocol/maccor.py", "beep/conversion_schemas/__init__.py"],
  [("copies of defaults and inputs", "beep/features/base.py, beep/model.py, beep/protocol/maccor.py")], ["results", "module configuration"])

p("C13", "Inputs stay untouched and the workspace is restored after any failure",
  "Loading, structuring, validating, featurizing, training, predicting, inspecting and converting never create, change or delete any file except their named outputs - in particular no input file - and whatever fails or interrupts them, temporary directories are gone (unless removing them itself fails, or the process is killed, which leaves nothing else behind) and the process's working directory is what it was before the call. Inspecting a file writes nothing at all.",
  ["inputs", "fault_sequences", "schedules"],
  "for every input format, command, I/O failure and interrupt point",
  "No test looks at the file tree after a failure.",
  ["beep/structure/neware.py", "beep/utils/project_transfer.py", CLI, "beep/structure/maccor.py"],
  [("scratch directories as context managers", "beep/structure/neware.py, beep/utils/project_transfer.py")], ["file tree", "working directory"])

p("C14", "Project transfer copies every object whole, once, and touches nothing else",
  "Transferring a project selects exactly the objects directly under the prefix whose key contains the project path and none of the excluded strings, and stores each under its renamed key (renamed keys being distinct and not themselves among the selected ones) with the same content except that the project name is replaced in the first line; the source objects are never changed. In dry-run mode nothing is written to the source bucket, and a transfer that returns normally has transferred every object whose upload was not refused, with refused uploads reported and not stopping the others.",
  ["inputs", "fault_sequences", "configurations"],
  "for every bucket content, name pair, exclusion list, page layout, object size and transfer failure",
  "The module has no test.",
  ["beep/utils/project_transfer.py"], [("paginated listing", "beep/utils/project_transfer.py:get_all_objects"), ("download, rewrite, upload", "beep/utils/project_transfer.py:download_and_modify")],
  ["bucket contents", "bucket access log"])

p("C15", "Converted, spliced and generated files are whole when success is returned",
  "When saving a cycler procedure, schedule or settings file, converting between cycler formats (with all rule files a conversion promises), assigning cycle numbers to exported data, writing a waveform or splicing two raw files returns normally, every promised file is complete on disk and reloads in a new process to what was saved, for content the format can represent and up to its conventions for white space and empty values: equal steps and values, every input row exactly once and in order. If any write fails or is interrupted, the call raises instead of returning normally, and repeating it after the fault is gone gives the same files as an undisturbed call.",
  ["inputs", "fault_sequences", "crash_points"],
  "for every procedure/schedule/settings content, write failure, short write and crash point",
  "Tests convert a few fixed files on a healthy disk.",
  ["beep/protocol/maccor.py", "beep/protocol/arbin.py", "beep/protocol/biologic.py", "beep/protocol/maccor_to_biologic_mb.py", "beep/protocol/biologic_mb_to_maccor.py", "beep/protocol/maccor_to_arbin.py", "beep/utils/splice.py"],
  [("to_file/from_file", "beep/protocol/*.py"), ("multi-file conversion", "beep/protocol/maccor_to_biologic_mb.py:convert, add_cycle_nums_to_csvs"), ("splice", "beep/utils/splice.py")], ["files on disk"])

p("C16", "Results do not depend on the host's clock, time zone, hash seed or location",
  "The same raw files and options give the same loaded data, structured data, summaries, validation verdicts, features and predictions on every host: whatever its time zone and daylight-saving rules, clock reading or clock jumps during the run, string-hash seed, working directory, directory listing order and file modification times, the random generators being seeded alike. Only fields documented as a time of operation, elapsed time or absolute file location may differ.",
  ["configurations", "schedules", "inputs"],
  "for every time zone, clock setting and jump, hash seed and working directory, over timestamps including daylight-saving changes",
  "The suite runs in one time zone with one hash seed.",
  ["beep/structure/base.py", "beep/structure/maccor.py", "beep/structure/arbin.py", "beep/structure/battery_archive.py", "beep/structure/neware.py", "beep/features/core.py"],
  [("timestamp standardisation to UTC", "beep/structure/*.py"), ("pause detection", "beep/structure/base.py:get_max_paused_over_threshold")], ["structured output", "features"])

p("C17", "Train/test splits are disjoint, complete and driven only by the given seed",
  "Training on a fraction scores the model on exactly the samples it was not trained on: the two groups are disjoint, together all usable samples, of the requested proportion, and the reported errors are those of the returned model on those groups, for every state of the random generator; the same generator state gives the same result and different ones are able to give different groups. A dataset splitter gives the same disjoint, complete split for the same input and seed whatever other code drew from or seeded the shared random generators in between, keeps every group of its split columns on one side, and takes exactly the samples its thresholds, exclusion columns and targets leave usable, each with its own values. The scaling and the model scored on a fraction are fitted on the training rows alone.",
  ["schedules", "inputs", "configurations"],
  "for every random stream, interleaving of other random draws, fraction, seed and data set",
  "Tests use one seed and one fraction and never compare groups.",
  ["beep/model.py", "beep/prediction/beep_data_splitter.py"],
  [("train_and_score", "beep/model.py"), ("split", "beep/prediction/beep_data_splitter.py")], ["returned errors", "splits"])

p("C18", "Commands and callers running at the same time do not disturb each other",
  "Several commands run concurrently in one working directory or against one download cache, each with its own outputs (files they fetch have distinct names or are the same object), and several threads of one process using separate objects and drawing nothing from the shared random generators, produce exactly the results, reports and files that each produces on its own, in every interleaving of their steps. A crash of one of them at any point leaves the others' results unaffected.",
  ["schedules", "crash_points"],
  "for every interleaving of the steps of the concurrent commands or threads, and every crash point of one of them",
  "No test runs two operations at the same time.",
  ["beep/structure/neware.py", CLI, "beep/utils/s3.py", "beep/structure/base.py", "beep/features/base.py", "beep/conversion_schemas/__init__.py"],
  [("uniquely named scratch directories", "beep/structure/neware.py"), ("per-object state", "beep/structure/base.py")], ["results", "files", "status json"])

# ---- pure properties: not applicable to simulation ------------------------------------------------
p("N01", "Interpolated cycles follow the raw data",
  "Every interpolated cycle lies on the piecewise-linear curve through that cycle's raw points for its step type, at the requested number of evenly spaced points of the requested axis and range, and points outside the raw range are not invented.",
  ["inputs"], "for every raw data set and resolution", "Only sampled numeric fixtures.",
  ["beep/structure/base.py"], [("interpolate_df, interpolate_step", "beep/structure/base.py")])
p("N02", "Cycle summaries aggregate exactly the rows of their cycle",
  "Each per-cycle summary value equals the defined aggregate over exactly the raw rows of that cycle, with the incomplete last cycle dropped by the documented rule.",
  ["inputs"], "for every raw data set", "Only sampled numeric fixtures.",
  ["beep/structure/base.py"], [("summarize_cycles", "beep/structure/base.py")])
p("N03", "Validation accepts exactly the data that meets the schema",
  "A raw data set is declared valid exactly when every column named in its schema satisfies every rule there, and a rejection names a column and rule that really is violated.",
  ["inputs"], "for every data set and schema", "Few fixed files.",
  ["beep/structure/validate.py"], [("SimpleValidator", "beep/structure/validate.py")])
p("N04", "Cycler formats are converted to the common columns and units",
  "For each supported cycler the loaded columns, units, cumulative capacities and standardised timestamps equal those defined by its conversion table applied to every row.",
  ["inputs"], "for every raw file", "Few fixed files.",
  ["beep/structure/maccor.py", "beep/structure/arbin.py", "beep/structure/neware.py", "beep/structure/novonix.py", "beep/structure/biologic.py", "beep/structure/indigo.py"], [("from_file and conversion schemas", "beep/structure, beep/conversion_schemas")])
p("N05", "Features equal their definitions",
  "Each featurizer's values equal the mathematical definition of the feature on the structured data with the given hyperparameters.",
  ["inputs"], "for every structured data set and hyperparameters", "Numeric fixtures only (several currently failing).",
  ["beep/features/core.py", "beep/features/intracell_losses.py"], [("create_features", "beep/features/core.py")])
p("N06", "Generated procedures encode the requested parameters",
  "Each generated or converted protocol step carries the currents, voltages, limits, rests and loop counts that its parameter row or source step specifies, in the target cycler's units.",
  ["inputs"], "for every parameter row or source procedure", "Few fixed rows.",
  ["beep/protocol/maccor.py", "beep/protocol/biologic.py", "beep/protocol/maccor_to_biologic_mb.py"], [("parameter insertion", "beep/protocol/maccor.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
