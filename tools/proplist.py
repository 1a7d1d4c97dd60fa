B = "beep/structure/base.py"
prop("P01", "Interpolated cycle data is the cycler record, resampled",
 "After structuring, every regular cycle of the record that has a charge (or discharge) appears in the interpolated data with exactly the requested number of points per direction, on an ascending (for a fixed voltage range) evenly spaced axis over the requested range, and every value is the linear interpolation of that cycle's own measured samples, with no value invented outside the measured range. Samples of other cycles, excluded cycles, diagnostic cycles, rests or the opposite direction never leak into it, and neither cycle numbering, row labels of the input nor the requested resolution or voltage range change which samples are used.",
 ["inputs", "configurations"], "all records over small step alphabets (CC, CV, discharge, rest, two-sample steps, re-used step numbers) x cycle numbering x row labels x axis/resolution/range/exclusion choices",
 "the stored-file tests check a few rows of a few real files (and cannot run here without the data files); which samples belong to which cycle and direction must hold for every step composition",
 [B], [("interpolate_cycles", B), ("interpolate_step", B), ("step_is_chg / step_is_dchg", B), ("interpolate_df", B)])
prop("P02", "The cycle summary states what each regular cycle did",
 "The summary has exactly one row per regular (non-diagnostic) cycle in ascending order, except that an incomplete last cycle is dropped, and each row's capacities, energies, efficiency, resistance, temperature figures, start time, throughputs, charge duration, pause length and constant-voltage figures are those of that cycle's own samples. Energies beyond the error threshold are blank, throughputs are the running sums over regular cycles, and no figure depends on row labels, numbering gaps or neighbouring cycles.",
 ["inputs", "configurations"], "all records of up to three cycles over a step alphabet x numbering, row labels, nominal capacity, thresholds, faulty values, diagnostic cycles",
 "tests assert a handful of aggregate numbers on stored files; per-row attribution has to hold for every sequence of cycles",
 [B], [("summarize_cycles", B), ("capacities/paused/CV helpers", B)])
prop("P03", "Structuring is a pure function of record, parameters and diagnostic",
 "Whatever sequence of structuring, un-structuring, diagnostic assignment, summarising, validation and (de)serialisation calls was made before, structuring a record gives the same result as structuring a fresh object with the same record, parameters and diagnostic, and the parameters remembered on the object are the ones of the latest structuring. None of these calls changes the raw data, queries on an unstructured object fail with an explicit error instead of answering, and un-structuring removes every structured result.",
 ["histories"], "all operation sequences up to depth 3 (quick) / 4 (thorough) over a 10-operation alphabet on records with and without diagnostics",
 "tests exercise one operation order each; the guarantee is about every history of calls on one object",
 [B], [("structure / unstructure", B), ("diagnostic setter", B), ("StructuringDecorators", B)])
prop("P04", "Saving and loading a structured record loses nothing",
 "Writing a record (structured or not, with or without diagnostic data, to compressed or plain JSON or to a dictionary) and reading it back gives an object with the same structured data, summaries, metadata, diagnostic configuration, structuring parameters and - unless it was deliberately omitted - raw data, which is structured exactly if the original was and answers every query identically. Saving leaves the object unchanged, loading leaves the caller's dictionary unchanged, and saving the loaded object again reproduces the same content.",
 ["inputs", "configurations", "histories"], "all combinations of record x structured state x diagnostic x container format x raw omission, followed by 1-2 further save/load generations",
 "tests round-trip one or two stored files; equality must hold for every state the object can be in",
 [B], [("as_dict/from_dict", B), ("to_json_file/from_json_file", B)])
prop("P05", "Diagnostic cycles are labelled and measured as configured",
 "A diagnostic configuration answers, for every cycle, which type(s) it has, refuses a cycle assigned twice, classifies families of type names as documented, detects cycles by their step sequence (contained or exact) and survives serialisation. Structuring with it reports each configured cycle present in the record exactly once in the diagnostic summary with its own figures and type, and resamples every one of its steps separately with the right type, step number, repetition count and ordinal, at the resolution of its kind, from that step's own samples.",
 ["inputs", "configurations"], "all small type maps x records over step compositions incl. repeated steps x resolutions; all step-sequence detection patterns over <=4 cycles",
 "tests use one stored diagnostic file and one hand-written configuration",
 ["beep/structure/diagnostic.py", B], [("DiagnosticConfig", "beep/structure/diagnostic.py"), ("summarize_diagnostic / interpolate_diagnostic_cycles", B)])
prop("P06", "Cycle-life and capacity-fade queries answer from the summary",
 "For every fade history the cycle life is the first cycle whose discharge capacity has fallen to the given fraction of the reference capacity (provided the run ends below it), capacity-at-cycle and cycle-at-capacity tables contain one correctly labelled entry per requested point holding the capacity after that many cycles or the cycle life at that fraction, and a query that the history cannot answer says so with the documented placeholder. The answers do not change when the record is saved and reloaded.",
 ["inputs"], "all capacity sequences of length <=6 (quick) / 8 over a 4-5 value grid x thresholds x query ranges x reload",
 "tests ask for two thresholds on one file; ties, non-monotone fade, recoveries and unreached thresholds are never sampled",
 [B], [("get_cycle_life", B), ("cycles_to_capacities / capacities_to_cycles", B)])
VL = "beep/structure/validate.py"
prop("P07", "Validation accepts exactly the records that satisfy the schema",
 "A record is declared valid exactly when every column named in the validation schema is present as required and meets its type, per-row bounds, per-record extremum bounds and monotonicity rules, at the documented tolerance; otherwise the verdict is invalid and the stated reason names a rule that is really broken. Validation never raises on a well-formed schema, never modifies the record, and gives the same verdict when repeated.",
 ["inputs"], "all frames of <=3 rows over a small value grid (incl. blanks) x all single and paired schema rules",
 "tests run a few stored files against the shipped schemas",
 [VL, B], [("SimpleValidator.validate", VL), ("BEEPDatapath.validate", B)])
MC = "beep/structure/maccor.py"
prop("P08", "Ingesting a Maccor record preserves its content",
 "For every Maccor export, the loaded record has one row per data line in file order with record, cycle and step numbers, times, voltage and current unchanged, timestamps converted from Pacific time to UTC (a date-only stamp means midnight), and charge and discharge capacity and energy equal to the amounts accumulated since the start of that line's cycle, split by direction and taken from the waveform counters where present. Barcode, protocol, start date and file name come from the header line and the channel from the file extension. Companion impedance files of the same test, and only those, are found and loaded.",
 ["inputs"], "all synthetic exports of up to four step runs over charge/discharge/rest/waveform x cycle boundaries x timestamp, status and header variants",
 "tests load a few stored files (absent here); the accumulation must be right for every order of states and cycle boundaries",
 [MC], [("MaccorDatapath.from_file", MC), ("quantity_sum", MC)])
prop("P09", "Every supported cycler format maps faithfully to the common record",
 "For Arbin, Indigo, Neware, Novonix and Battery Archive exports, every measured line becomes one row in order with voltage, current (sign as the format defines), time, timestamp, cycle, step, capacity and energy carried over (milli-units and coulombs converted to A, Ah and Wh; Indigo energy and Novonix run time keep their exported unit), charge and discharge amounts separated as the format defines, and the metadata named in the export ends up in the metadata. No line is dropped, duplicated or attributed to another cycle or step, whatever the sequence of steps and cycles. The name of a raw file alone decides which format it is read as; the names of the folders it is in change neither that nor what is read. An Arbin record is validated by the schema of the project its name begins with, or else by the default one.",
 ["inputs"], "all synthetic exports of bounded length over state/cycle sequences per format",
 "tests load one small file per format",
 ["beep/structure/arbin.py", "beep/structure/indigo.py", "beep/structure/neware.py", "beep/structure/novonix.py", "beep/structure/battery_archive.py"],
 [("from_file of each datapath", "beep/structure/")])
BL = "beep/structure/biologic.py"
prop("P10", "Biologic records get the cycle numbers their transition rules define",
 "Replaying the sequence / loop records of a Biologic export through the cycle-transition rules assigns every row the cycle number that counting rule-triggered transitions from one gives, the technique hand-over between consecutive files continues the count, and writing and reading the transition rules gives the same rules. Loaded rows keep the exported values in the common units with charge and discharge separated.",
 ["inputs", "histories"], "all sequence-number / loop transition walks up to length 6 x rule sets over <=3 sequences x 1-2 technique files",
 "tests replay one recorded walk with one rule set",
 [BL, "beep/protocol/maccor_to_biologic_mb.py"], [("add_cycle_nums_to_csvs / cycle_index", BL), ("CycleAdvancementRulesSerializer", "beep/protocol/maccor_to_biologic_mb.py")])
FB = "beep/features/base.py"
prop("P11", "A feature matrix holds exactly the features its featurizers computed",
 "Joining featurizers into a matrix gives one row per cell, in which every feature of every featurizer appears exactly once under a column that identifies the featurizer class and its parameters, with the value the featurizer computed; cells and features never mix or disappear and configurations of the same class stay distinguishable. Invalid combinations (duplicate features, mixed per-cell and per-cycle rows) are refused, and saving and reloading keeps the matrix and its provenance.",
 ["inputs", "configurations"], "all assignments of <=4 featurizers (class x hyperparameters x cell) to a matrix, incl. missing cells, duplicates and wrong kinds",
 "tests build one or two matrices",
 [FB], [("BEEPFeatureMatrix", FB), ("BEEPFeaturizer", FB)])
FC = "beep/features/core.py"
prop("P12", "Featurizers compute documented quantities without side effects",
 "For every structured record a featurizer accepts, its features equal their documented definition over that record at the hyperparameters in force, where hyperparameters left out take their documented default and those given are used as given. Creating, validating and running a featurizer changes neither the record, the caller's hyperparameters nor the defaults seen by later featurizers, and a record that lacks the cycles, columns or diagnostics the featurizer needs is refused by validation with a reason.",
 ["inputs", "histories", "configurations"], "all small structured records x hyperparameter deviations x pairs of featurizers run one after the other",
 "tests compare a few numbers on stored files, one featurizer at a time",
 [FB, FC], [("validate / create_features", FC), ("hyperparameter handling", FB)])
MO = "beep/model.py"
prop("P13", "A trained experiment predicts the same for the same cell, always",
 "Training drops exactly the features and samples whose share of missing values exceeds the thresholds in force and scales the rest with the training statistics; predicting returns one value per remaining sample, computed from that sample's own features with the training scaling and imputation, together with the list of dropped samples. Predictions are unaffected by the other samples in the same request, by repeating the request, by extra columns, or by saving and reloading the model, and neither training nor predicting modifies the caller's matrices.",
 ["inputs", "histories", "configurations"], "all missing-value patterns over small matrices x thresholds x models x predict histories x save/reload",
 "tests train on one matrix with few missing values",
 [MO], [("BEEPLinearModelExperiment.train / predict", MO), ("as_dict/from_dict", MO)])
DS = "beep/prediction/beep_data_splitter.py"
prop("P14", "The data splitter partitions samples without leakage",
 "Every split assigns each kept sample to exactly one of train and test in the requested proportions or by the requested explicit lists, the same indices serve features and targets, the prescribed columns are excluded from the predictors, and features or samples with too many missing values are removed by the documented thresholds. Samples of one group never straddle train and test, the same inputs and random state give the same split, saving and reloading the splitter reproduces it, and the values in the caller's matrices are not modified.",
 ["inputs", "configurations"], "all missing-value patterns over small matrices x split configurations x reload",
 "tests check one dataset's shapes",
 [DS], [("BEEPDataSplitter", DS)])
CM = "beep/cmd.py"
prop("P15", "Batch commands process every file on its own and report truthfully",
 "For structure and featurize commands over any list of files, with any subset of them unreadable, invalid or failing part-way, every good file is processed exactly as it would be alone, each input has one entry in the status report with its true outcome and output path, and the exit status reflects the requested strictness. A missing file is refused before structure writes anything, and reported like an unreadable one by featurize. No two inputs write to the same output (the command is refused, or the outputs are named apart), outputs hold what their input yields and neither the feature matrix nor the status file replaces another file of the run, input files are never modified, and with an S3 bucket a named local file is preferred and outputs stay matched to the named files in order. The featurizers applied are exactly those the options name: a named set (all features, all targets) instead of those named singly, and those given with hyperparameters always.",
 ["fault_sequences", "configurations"], "all assignments of outcomes to batches of <=3 files x options (halt on error, automatic vs manual naming, no-raw, validation only, duplicates)",
 "CLI tests run one fixed batch (and cannot run here without the data files)",
 [CM], [("structure / featurize commands", CM)])
prop("P16", "Train, predict and protocol commands do what their options say",
 "Every option of the train, predict and protocol commands reaches the computation it documents, so that the artefact written and the status report equal what the library call with those settings gives. Settings the library refuses, and protocol rows whose template is not supported, are reported as failures without a stray artefact and without affecting the other rows, and fail the command only under --halt-on-error.",
 ["configurations", "fault_sequences"], "all single and pairwise option deviations of each command; all outcome assignments of <=3 protocol rows",
 "CLI tests use one option set",
 [CM], [("train / predict / protocol commands", CM)])
prop("P17", "Protocol files survive being read and written",
 "Reading an Arbin schedule, a Biologic settings file or a Maccor procedure and writing it back gives the same file, and changing one parameter through the provided accessors changes that parameter and nothing else. Loading never depends on previously loaded files.",
 ["inputs", "histories"], "all small schedules over section/step/limit structures x single and paired edits",
 "tests round-trip one stored file each",
 ["beep/protocol/arbin.py", "beep/protocol/biologic.py", "beep/protocol/maccor.py"],
 [("Schedule", "beep/protocol/arbin.py"), ("Settings", "beep/protocol/biologic.py"), ("Procedure", "beep/protocol/maccor.py")])
MA = "beep/protocol/maccor_to_arbin.py"
prop("P18", "A Maccor procedure converted to Arbin runs the same experiment",
 "For every supported Maccor procedure, the converted Arbin schedule visits the same sequence of charge, discharge and rest steps with the same control modes and values, leaves each step on the same limits towards the same successor, repeats loops the same number of times and advances the cycle counter at the same points, and logs under the same conditions. A procedure that cannot be converted is refused without writing a schedule. Converting does not modify the procedure and gives the same schedule each time.",
 ["programs"], "all procedures of <=3 working steps with <=2 nested loops over modes x end conditions x goto targets",
 "tests convert stored procedures and compare a few fields",
 [MA, "beep/conversion_schemas"], [("ProcedureToSchedule", MA)])
MB = "beep/protocol/maccor_to_biologic_mb.py"
prop("P19", "A Maccor procedure converted to Biologic runs the same experiment",
 "For every supported Maccor procedure, the converted Modulo Bat sequences visit the same sequence of charge, discharge and rest steps with the same control and limit values and units, repeat loops the same number of times, and the generated cycle-advancement rules count cycles exactly where the procedure advances them. Procedures that cannot be represented are refused.",
 ["programs"], "all procedures of bounded length over modes, end conditions, loops (nested), goto targets and cycle advances, both machines simulated",
 "tests convert a few fixed fragments",
 [MB], [("MaccorToBiologicMb", MB), ("CycleAdvancementRules", MB)])
BM = "beep/protocol/biologic_mb_to_maccor.py"
prop("P20", "A Biologic protocol converted to Maccor runs the same experiment",
 "For every supported Modulo Bat file, the converted Maccor procedure performs the sequences in order with the same direction, control and limit values in base units, leaves each step towards the step that corresponds to the limit's target, and repeats loops the same number of times.",
 ["programs"], "all sequence tables of bounded length over control types, limits, goto targets and loops",
 "tests convert two stored files and check fragments",
 [BM], [("BiologicMbToMaccor", BM)])
GP = "beep/protocol/generate_protocol.py"
prop("P21", "Generated protocols carry exactly the parameters of their row",
 "Each row of a protocol parameter table with a supported template yields one protocol file named after its project and sequence number whose steps carry exactly that row's charge, discharge, waiting, reset, diagnostic and waveform settings, whatever other rows or earlier runs produced. Rows with unsupported templates are reported, produce no file and leave the other rows unaffected.",
 ["inputs", "histories"], "all tables of <=3 rows over templates x parameter deviations",
 "tests generate from stored tables and compare a few steps",
 [GP, "beep/protocol/maccor.py", "beep/protocol/biologic.py", "beep/protocol/arbin.py"],
 [("generate_protocol_files_from_csv", GP), ("generate_* template fills", "beep/protocol/maccor.py")])
UT = "beep/utils/__init__.py"
prop("P22", "Path-style edits touch one place and parameter lookups one project's row",
 "Getting, setting and removing a nested value by its path agrees with plain nested indexing for every path, creates or leaves everything else untouched, and missing paths are reported or defaulted as documented. Protocol objects built on it are independent of one another. Looking up the protocol or diagnostic parameters of a test uses the parameter files of that test's project only and returns the row of its sequence number, or nothing.",
 ["histories"], "all sequences of <=3 get/set/unset operations over paths of depth <=3; all directories of <=3 parameter files x queried file names",
 "tests do a couple of lookups",
 [UT, "beep/deprecated/parameters_lookup.py"], [("DashOrderedDict / dict helpers", UT), ("get_protocol_parameters / get_diagnostic_parameters", "beep/deprecated/parameters_lookup.py")])
WF = "beep/utils/waveform.py"
prop("P23", "Generated drive-cycle waveforms deliver the requested profile",
 "Every generated waveform file lists steps whose order, durations, signs, control kind, limits and ranges reproduce the requested profile (one sample per second) scaled to the requested peak, within the file's stated precision, rests carrying the limits of a discharge, merging equal neighbours without changing total duration or net quantity. Velocities become the power documented for their unit and times. Charging windows become stepped currents and a smooth counterpart of equal duration and charge between the allowed c-rates; windows out of order are refused. Generation does not modify its inputs or the default settings.",
 ["inputs"], "all profiles of <=5 samples over a value grid x settings; all velocity profiles of <=4 samples x time grids x units; all sets of three charging windows over a grid of c-rates and bounds",
 "tests use one recorded drive profile",
 [WF], [("convert_velocity_to_power_waveform / RapidChargeWave / generate_maccor_waveform_file", WF)])
SP = "beep/utils/splice.py"
prop("P24", "Splicing two Maccor files yields one continuous record",
 "Splicing two exports of one interrupted test gives the first file's metadata line and all rows of the first followed by all rows of the second. Record, cycle, test time and loop counters continue from the first file's last value where the second file starts over, are kept where the second already continues, and never run backwards at the join; everything else is unchanged and neither input file is modified.",
 ["inputs"], "all pairs of counter sequences of length <=3 over overlapping and non-overlapping ranges",
 "tests splice one stored pair",
 [SP], [("MaccorSplice", SP)])
IA = ["beep/features/intracell_analysis.py", "beep/features/intracell_analysis_v2.py", "beep/features/intracell_losses.py", "beep/features/intracell_losses_v2.py"]
prop("P25", "Intra-cell degradation fits recover the parameters that explain the data",
 "The full cell emulated from two half-cell curves is their difference after scaling, shifting and blending them as the parameters say, within the cell's voltage window and counted from its lower end. Fitting a diagnostic cycle minimises the distance between emulated and measured curve in the representation asked for, so a curve made by an electrode pair is explained by that pair's parameters; for them the capacities and the voltages and states of charge of both electrodes along the full cell are reported. The feature tables hold one row per diagnostic cycle of the configured type above the capacity threshold (or the first two cycles in one row), each fitted to that cycle's own charge curve; records with too few such cycles are refused by validation. Neither half-cell curves nor the record are modified.",
 ["inputs", "configurations"], "all half-cell pairs, parameters and sequences of diagnostic cycles",
 "numerical optimisation results are compared with stored numbers on one cell, and those tests fail with current libraries",
 IA, [("IntracellAnalysis", IA[0]), ("IntracellAnalysisV2", IA[1]), ("IntracellCycles / IntracellFeatures", IA[2])],
 note="The stochastic optimiser is replaced by exhaustive evaluation of the real objective on a parameter grid; that scipy's optimiser converges is not decided. Nothing is claimed beyond the bounds.")
PC = "beep/features/principal_components.py"
prop("P26", "Principal components describe exactly the curves they were given",
 "The pivot table of a list of structured files has one row per requested cycle present in each file, in file order, holding that cycle's own discharge values over the pivot axis. Fitting standardises the table, takes the orthonormal directions of greatest variance, and reports the smallest number of components that explains more than the threshold. Training and new data are embedded and reconstructed with the training standardisation, and rows are flagged as outliers exactly when a whitened embedding leaves the requested quantiles of the training set, or their mean reconstruction error exceeds the threshold times the largest training error. Neither fitting nor querying changes the data passed in.",
 ["inputs", "configurations"], "all lists of files, cycle selections and data matrices with variance",
 "tests check shapes and one stored error on one file",
 [PC], [("PrincipalComponents", PC), ("pivot_data", PC)])
PT = "beep/utils/project_transfer.py"
prop("P27", "Moving files to another project copies them whole and renames only that",
 "Selecting a project's files gives every object directly in the given folder whose name begins with the project, however many pages the listing has, except those whose key contains an excluded string. Transferring a list of them uploads, for each, a copy named after the output project in the same folder: every occurrence of the project in the file's first line is replaced and all other bytes (later lines, line endings, any encoding) are kept. A dry run writes only to the test bucket; an upload that is refused is reported and the others still happen; source objects are never changed or deleted and no local files are left behind.",
 ["inputs", "fault_sequences"], "all folders, listings in pages, file contents and sets of refused uploads",
 "nothing tests it: it needs S3",
 [PT], [("ProjectTransfer.get_list_files / get_all_objects", PT), ("ProjectTransfer.download_and_modify", PT)])
prop("P28", "Inspecting a file shows what it holds and changes nothing",
 "For every file beep can load - raw cycler exports, structured records with any subset of their tables (current or legacy, with or without raw data, compressed or not), featurizers, feature matrices, trained experiments and other serialised objects - the inspect command exits 0 and prints the file's path, the identifying metadata, paths and parameters, and each table as the library loads it, with absent tables marked as such. A file that cannot be loaded ends the command with an error. No file is created or changed.",
 ["inputs", "configurations"], "all saved objects with any subset of their optional parts",
 "the one CLI test checks only the exit status, and cannot run here without the data files",
 [CM], [("inspect", CM)])
prop("P29", "The log file is one JSON object per event, whatever the events say",
 "When a command is given a log file, every event it logs is appended to that file, in order and as one line holding one JSON object with time, level, process, module, function and the complete message, whatever characters the message or the file names in it contain and whether the command succeeds, fails or halts. What the file held before is kept.",
 ["inputs", "fault_sequences"], "all sequences of commands over good and failing inputs with any file names",
 "no test reads a log file",
 [CM, "beep/__init__.py"], [("cli --log-file", CM), ("log formatters", "beep/__init__.py")])
PL = "beep/deprecated/parameters_lookup.py"
prop("P30", "Structuring parameters come from the project's file and the record",
 "For a test whose project has a parameter file with its sequence number, the structuring parameters are that row's nominal capacity and the voltage range covering every row of the project, where the file gives them; everything else is as the caller passed it, and without such a row nothing is replaced and no diagnostics are reported. When the row describes HPPC+RPT diagnostics, they are reported with the row's parameter set, their five cycle types, and exactly the cycles at which a diagnostic starts in the record: every one that runs the steps of the first or of the second scheduled diagnostic, however the record is cut, and a complete final diagnostic at the end of the record even when its steps have other numbers. A parameter directory that does not exist is refused; the record is not modified.",
 ["inputs", "configurations"], "all schedules, lengths of record, final diagnostics and sets of columns in the parameter file",
 "nothing tests it: the tests of automatic structuring were removed with the command",
 [PL], [("determine_structuring_parameters", PL)])
prop("P31", "Impedance spectra are read, found and kept whole",
 "A Maccor impedance file gives one spectrum: the kind of sweep, the method's name, the start time and the parameters stated in its header, and a table with every measured row and column, where a missing value stays missing. Loading a Maccor record's impedance runs finds exactly the files in the record's folder whose name is the record's with something between name and extension, whatever characters the names of folder and file contain, or takes exactly the files asked for, in that order; the paths are recorded and are kept when the record is saved. A spectrum, whose metadata may be a table or a dictionary, survives being saved and loaded through a dictionary or a file with its class, values and gaps, any number of times. No input file is changed, and a file that cannot be read is refused and leaves the spectra the record had.",
 ["inputs", "histories", "configurations"], "all header forms, small tables with gaps, subsets of a folder's files x kinds of names, lists of runs, forms of metadata x ways of saving x generations",
 "the tests read one stored file and save one spectrum; names of files and forms of metadata are never varied",
 ["beep/structure/base_eis.py", "beep/structure/maccor.py"], [("EIS.as_dict / from_dict / from_file", "beep/structure/base_eis.py"), ("MaccorDatapath.load_eis, MaccorEIS", "beep/structure/maccor.py")])
