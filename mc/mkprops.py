"""Writes properties.jsonl and MANIFEST.json from the table below (python3 mc/mkprops.py)."""
import json
import os

H = "harmonisation_eiv/harmonisation/"
IO = H + "core/matchup/matchupIO/"
PR = H + "core/matchup/matchupProcessing/"
TB = H + "core/matchup/matchupToolbox/"
HP = TB + "harmonisation/harmonisationProcessing/"
GN = HP + "harmonisation_eiv/"
PC = HP + "harmonisation_eiv_pc/"
HIO = TB + "harmonisation/harmonisationIO/"
F = "harmonisation_meiv_demo/src/main/fortran/gpl/"

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, note, state=(), technique=None):
    assert len(title) <= 80, (pid, len(title))
    P.append((pid, {"id": pid, "title": title, "statement": statement,
                    "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                    "anchors": {"files": files,
                                "mechanism": [{"name": n, "where": w} for n, w in mech],
                                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                                "observe_at": observe, "hook_needed": None}}, note, technique))


ENUM = "bounded exhaustive enumeration of executions of the real code against a reference model"

prop("C01", "Match-up files are read without loss, mixing or reordering",
     "Opening any set of valid match-up files gives, for every series, sensor and covariate, exactly the stored values (in "
     "single precision), and for every series the stored adjustment factors with their combined uncertainty, times, optional "
     "pixel indices and additional variables (absent or filled data as NaN). Series are in the order in which files are given, "
     "a directory or a list of directories standing for its match-up files in name order; sensors are numbered by first "
     "appearance, and all counts, offsets and pairings describe the data that were read. Switching uncertainties or additional "
     "data off leaves them out and changes nothing else.",
     ["inputs", "configurations"],
     "all sets of valid match-up files (any pairing of sensors, numbers of covariates and match-ups, presence of optional "
     "variables), all ways to name them and all orders in which a file system lists them",
     "The tests read two fixed chains of files; the layout arithmetic must hold for every pairing, shape and listing order.",
     [IO + "MatchUpReader.py", IO + "MatchUp.py"],
     [("block layout by covariate, then file, then sensor of the pair", IO + "MatchUpReader.py get_idx_*"),
      ("order of the files", IO + "MatchUpReader.py open_nc_datasets"),
      ("filling of the blocks", IO + "MatchUpReader.py open_values/open_ks/open_time/open_optional/open_additional")],
     ["open_matchup(...)"],
     "every file set within the bounds is written by an independent writer, opened by the real reader and compared with the "
     "layout computed from the specification; assumes the netCDF library and UTC",
     [("idx", "numbering of sensors, series, covariates and offsets", IO + "MatchUp.py")])

prop("C02", "The error structure of every covariate is read as stored",
     "Every covariate of every series keeps its declared kind of error correlation with the stored random and systematic "
     "uncertainties or, for structured errors, the weighting matrix and the uncertainties which the file assigns to that "
     "column. One systematic effect is shared by all series of the same sensor and covariate and by nothing else, numbered "
     "consecutively from one; each matrix that is in use is held once.",
     ["inputs"],
     "all assignments of error types, weighting matrices and uncertainty vectors to the columns of any set of files",
     "Tests read one assignment; index arithmetic over concatenated sparse matrices must hold for every assignment.",
     [IO + "MatchUpReader.py", IO + "Uncertainty.py"],
     [("matrix numbering per series", IO + "MatchUpReader.py open_matrix_idxs_from_nc_datasets"),
      ("slices of the concatenated matrices", IO + "MatchUpReader.py _open_w_matrix/_open_u_matrix"),
      ("numbering of systematic effects", IO + "MatchUpReader.py open_unc_from_nc_datasets")],
     ["open_matchup(...).unc, .w_matrices, .u_matrices"],
     "all type vectors and matrix assignments within the bounds, written independently and read by the real reader; numeric "
     "content is distinct per cell")

prop("C03", "Selecting data of a dataset returns exactly the data asked for",
     "Asking a dataset for a covariate, time, pixel index or additional variable of a sensor in a series returns exactly that "
     "sensor's data of that series (or nothing if the optional data are absent), and a selector that matches nothing never "
     "returns another one's data. Ranges are those of the selected data, the printed summary gives the true numbers of series "
     "and match-ups, and closing a dataset (also at the end of a with block) releases its data.",
     ["inputs", "histories"],
     "all datasets (pairings, shapes, presence of optional data) and all selectors, valid or not",
     "No test selects data; the offsets must be right for every pairing of sensors and every position of a sensor in a pair.",
     [IO + "MatchUp.py"],
     [("block lookup", IO + "MatchUp.py getVariableData"), ("side of the pair", IO + "MatchUp.py getSensor*"),
      ("release", IO + "MatchUp.py close")],
     ["MatchUp.get*", "repr(MatchUp)", "MatchUp.close"],
     "every selector in every dataset within the bounds, compared with the specification")

prop("C04", "Sensor functions, parameters and constants stay with their sensor",
     "When sensor data are attached to a dataset, each sensor of the dataset gets its own measurement function, its own "
     "adjustment function (the identity if it has none) and its own parameters and constants, in order and labelled with the "
     "sensor, whatever the order of the sensor data and whatever sensor data were read before. Sensors without match-ups contribute nothing, and the data layout is "
     "unchanged.",
     ["inputs", "configurations"],
     "all pairings of sensors, orders of the sensor data, numbers of parameters and constants, extra sensors and adjustment "
     "models",
     "The test uses one sensor table whose order is that of the data; any other order must work as well.",
     [IO + "MatchUpReader.py", IO + "MatchUp.py"],
     [("labelling", IO + "MatchUpReader.py extract_sensor_data"), ("attachment", IO + "MatchUp.py setSensorData")],
     ["MatchUp.a, .sensor_model, .adjustment_model, .idx after open_matchup/setSensorData"],
     "every table within the bounds, attached both ways")

prop("C07", "A simulated dataset spans exactly the range of its source",
     "A simulation of a dataset with n match-ups per series has the same series, sensors and covariates, and every covariate "
     "and adjustment factor of every series runs evenly from the source's minimum to its maximum in that series. The source is "
     "unchanged and shares no data with the simulation; sensor functions, constants and parameters are the source's.",
     ["inputs"],
     "all datasets (pairings, shapes, orders of the values) and all numbers of samples",
     "The test simulates one dataset with one sample count.",
     [PR + "simulate_matchup/SimulateMatchUp.py"],
     [("index of the simulation", PR + "simulate_matchup/SimulateMatchUp.py return_simulation_idx"),
      ("ranges", PR + "simulate_matchup/SimulateMatchUp.py return_simulation_x")],
     ["SimulateMatchUp().run(...)"],
     "every dataset and sample count within the bounds")

prop("C08", "Sensor functions are evaluated on each series' own data",
     "Evaluating measurands, adjusted measurands, their derivatives, parameter-driven uncertainties or adjustment factors for "
     "all series, one series or any list of series applies to every match-up its own sensor's function, with that series' "
     "covariates, pixel indices and times and that sensor's parameters and constants. Results are in the order of the "
     "selection, derivatives are those of the series and sensor they are stored under, and the adjustment factor is the second "
     "sensor's adjusted measurand minus the first's.",
     ["inputs"],
     "all datasets, all selections of series in any order, all parameter tables and presence patterns of indices",
     "The tests evaluate one dataset with ascending selections; slicing must be right for every selection and pairing.",
     [TB + "utils/matchup_maths.py", IO + "MatchUp.py"],
     [("slices of the selection", TB + "utils/matchup_maths.py evaluate_measurand"),
      ("adjustment", TB + "utils/matchup_maths.py evaluate_adjusted_measurand"), ("factor", TB + "utils/matchup_maths.py evaluate_K")],
     ["evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K"],
     "every dataset and selection within the bounds, with sensor functions that depend on all their arguments")

prop("C05", "The transformation to normalised variables loses nothing and is invertible",
     "Transforming a dataset gives independent variables of unit variance - one per match-up for unstructured covariates, one "
     "per column of the weighting matrix for structured ones, plus one (initially zero) per systematic effect - which stand for "
     "exactly the data they came from, whatever the error types of the columns. Transforming back, also from any other values "
     "of the variables, gives the covariates and adjustment factors these stand for, a systematic effect acting on every series "
     "of its sensor and covariate. Neither direction changes its input or loses times, pixel indices, parameters or sensor functions.",
     ["inputs"],
     "all datasets, all assignments of error types and weighting matrices to covariates, all values of the variables",
     "Tests transform one dataset and never transform other values back; offsets must be right for every mix of error types.",
     [PR + "transform2normind/Transform2NormInd.py"],
     [("layout and normalisation", PR + "transform2normind/Transform2NormInd.py run"),
      ("inverse", PR + "transform2normind/Transform2NormInd.py reverse")],
     ["Transform2NormInd().run", "Transform2NormInd().reverse"],
     "every dataset within the bounds forward, back, and back from values that are not the data; single-precision tolerances")

prop("C06", "A sample with independent errors is maximal, consistent and truly independent",
     "Sampling a dataset keeps, per series, distinct match-ups no two of which share an error through any weighting matrix of "
     "the series, never more than the requested share, and leaves a match-up out only when it depends on one taken or the share "
     "is used up, for every outcome of the random draws. All covariates, adjustment factors, times and pixel indices of the "
     "sample belong to the same match-ups, with purely random uncertainties (for structured errors the root mean square of those "
     "averaged), and the source is unchanged.",
     ["inputs", "histories"],
     "all datasets and structures of the weighting matrices, all sampling factors and maxima, all outcomes of random draws",
     "Tests sample with one seed from one dataset; independence must hold for every draw and every pattern of overlaps.",
     [PR + "sample2ind/Sample2Ind.py"],
     [("choice of match-ups", PR + "sample2ind/Sample2Ind.py"), ("uncertainties of the sample", PR + "sample2ind/Sample2Ind.py")],
     ["Sample2Ind().run"],
     "random.sample is replaced by a choice of the environment and every outcome of every draw is explored; rows of the "
     "weighting matrices use consecutive columns")

prop("C09", "Sensor functions are the documented measurement equations with true derivatives",
     "Every sensor function of the sensor data tables, and every compiled one, returns, for each match-up independently, the measurand its measurement "
     "equation gives for the covariates, parameters, constants and pixel index, and derivatives by each covariate and each "
     "parameter that are those of the returned measurand. Each table lists as many parameters as the sensor function uses, and a "
     "reference sensor's measurand is its first covariate.",
     ["inputs", "configurations"],
     "all sensor data tables, all sensors in them, all covariates, parameters and pixel indices of their domain",
     "The tests evaluate one invented sensor; no shipped sensor function is ever evaluated.",
     [H + "sensor_data/SensorDataFactory.py", H + "sensor_data/AVHRR/AVHRR_sensor_models.py", H + "sensor_data/AVHRR/AVHRR_sensor_models_cython.pyx", H + "sensor_data/HIRS/HIRS_sensor_models.py",
      H + "sensor_data/MW/MW_sensor_models.py"],
     [("equations and derivatives", H + "sensor_data/*/*_sensor_models.py"), ("choice of table", H + "sensor_data/SensorDataFactory.py")],
     ["SensorDataFactory().get_sensor_data(name)[sensor]['sensor_model'](...)"],
     "complete grids of covariates and parameters; oracle: independent measurement equations differentiated by complex steps. "
     "The microwave model's wrong derivative columns are a recorded known finding")

prop("C10", "The solver works with the exact residuals and Jacobian of the problem",
     "For every dataset and every value of the variables, the residuals of the errors-in-variables problem are the departures of "
     "the normalised variables from their data and of the modelled adjustment factors from the given ones in units of their "
     "uncertainty. Products with the (preconditioned) Jacobian and with its transpose are, column by column and row by row, "
     "those of the true derivatives of these residuals, for every error type, weighting matrix and pairing, references included.",
     ["inputs"],
     "all datasets, error types, numbers of covariates and parameters, preconditioners and values of the variables",
     "The solver only ever shows a converged number; a wrong entry for one error type or one pairing shifts results silently.",
     [GN + "GN_algo.py", GN + "cython_lib_GN_algo.pyx"],
     [("residuals", GN + "GN_algo.py calc_f"), ("product", GN + "GN_algo.py get_JPx"), ("transposed product", GN + "GN_algo.py get_JPTx"),
      ("recovery of the covariates", GN + "cython_lib_GN_algo.pyx unconvert_Xs")],
     ["GNAlgo.calc_f", "GNAlgo.get_JPx", "GNAlgo.get_JPTx"],
     "every unit vector both ways against a dense double-precision Jacobian of an independent model; single-precision tolerances")

prop("C11", "Harmonisation returns the least-squares solution of the match-ups",
     "The parameters of a harmonisation are those that minimise the sum of squared residuals of all measured quantities and "
     "adjustment factors in units of their uncertainty, for every mixture of error types, wherever the solver starts near the "
     "solution and with or without a preconditioner. Cost, degrees of freedom, chi-squared probability and the residuals "
     "returned are those of this solution.",
     ["inputs", "configurations"],
     "all sets of match-up series that determine the parameters, all error types, sensor models, starting points, preconditioners",
     "The tests of the solver run one dataset against stored numbers (and are not among those that pass); a biased solution converges just as well.",
     [GN + "GN_algo.py", GN + "HarmonisationEIV.py"],
     [("Gauss-Newton iteration", GN + "GN_algo.py run"), ("residuals", GN + "GN_algo.py calc_f"), ("cost and statistics", GN + "HarmonisationEIV.py")],
     ["GNAlgo.run", "HarmonisationEIV.run"],
     "every problem is solved by the real solver and by an independent dense double-precision solver; agreement to 2% of the standard uncertainty")

prop("C12", "The covariance of harmonised parameters is that of the least-squares problem",
     "The covariance matrix returned with the parameters is the parameter block of the inverse normal matrix at the solution, "
     "symmetric and in the order of the parameters. The elements are the same whether computed one at a time, as a whole or by "
     "parallel processes in any order of completion, with or without a preconditioner.",
     ["inputs", "configurations"],
     "all problems and variables of C11, all pairs of parameters, serial and parallel evaluation",
     "Uncertainties have no visible reference; a wrong factor or transposed index leaves a plausible matrix.",
     [GN + "GN_algo.py", GN + "pykrylov_minres.py"],
     [("elements", GN + "GN_algo.py get_parameter_covariance_ij/calculate_parameter_covariance"), ("Hessian product", GN + "GN_algo.py get_HPx")],
     ["GNAlgo.run", "GNAlgo.calculate_parameter_covariance"],
     "all elements against the dense inverse of an independent model's normal matrix")

prop("C13", "Saved preconditioners and solver states change how, not what is solved",
     "A harmonisation that starts from a saved solver state, a saved preconditioner result or both gives the parameters, covariance "
     "and residuals which one from the data alone gives. What a run saves can be opened by every later run and leaves the dataset "
     "and earlier files as they were. A solver that opens a saved state is in that state: its variables, preconditioner, data and their layout "
     "are those of the solver that saved it last.",
     ["histories", "configurations"],
     "all histories of runs on a dataset, each computing or opening a preconditioner, starting from data or a saved state, saving what it is told to",
     "Restarts are driven by hand on a cluster over days; no test saves and reopens a state.",
     [GN + "HarmonisationEIV.py", GN + "GN_algo.py", PC + "HarmonisationEIVPC.py", HIO + "HarmonisationResult.py"],
     [("preconditioner and state", GN + "HarmonisationEIV.py run"), ("saving and opening", GN + "GN_algo.py save/open")],
     ["HarmonisationEIV.run(... pc_input, save_pc, gn_input, save_gn)"],
     "every history up to the bound is run in a scratch directory; oracle: independent dense solution of the same dataset",
     [("pc files", "saved preconditioner result", GN + "HarmonisationEIV.py"), ("gn files", "saved solver state", GN + "GN_algo.py")])

prop("C14", "The approximate solver finds the least-squares solution of random errors",
     "For sampled, transformed data with random errors the approximate solver returns the parameters and the parameter covariance "
     "of the marginalised least-squares problem, in which the uncertainty of each adjustment factor is combined with the propagated "
     "uncertainty of the covariates. Its result carries the sensors' parameters in their order and original units.",
     ["inputs", "configurations"],
     "all sampled datasets, numbers of sensors, covariates and parameters and starting points",
     "It only preconditions the full solver, so errors show as slow or failing convergence only.",
     [PC + "pc_algo.py", PC + "HarmonisationEIVPC.py"],
     [("iteration", PC + "pc_algo.py"), ("result", PC + "HarmonisationEIVPC.py")],
     ["PCAlgo.run", "HarmonisationEIVPC.run"],
     "every problem in the bounds against an independent dense solution")

prop("C15", "The iterative linear solvers solve every system they are given",
     "The least-squares solver returns the minimiser of the (damped, weighted) residual, of all minimisers the least, and keeps it "
     "as its solution, also when no iteration is needed and when it is used repeatedly. The symmetric solver returns the solution "
     "of every consistent symmetric system, definite or not, shifted or preconditioned; neither changes its right-hand side.",
     ["inputs", "histories"],
     "all operators, right-hand sides, dampings, shifts and preconditioners; repeated use of one solver object",
     "They are exercised only inside the harmonisation, where exact zeros and eigenvectors do not occur until data fit exactly.",
     [GN + "pykrylov_lsmr.py", GN + "pykrylov_minres.py", GN + "pykrylov_generic.py", GN + "pykrylov_tools_utils.py"],
     [("bidiagonalisation and stopping", GN + "pykrylov_lsmr.py solve"), ("Lanczos and stopping", GN + "pykrylov_minres.py solve")],
     ["LSMRFramework.solve", "Minres.solve"],
     "every integer system up to 3x3 within the bounds against dense pseudo-inverses")

prop("C16", "A saved result of a harmonisation opens as it was saved, with its residuals",
     "Opening a result by its file, or by a directory that holds one result, gives the parameters, sensors, covariance, cost "
     "statistics, attributes and additional variables last saved there, and, if asked for, for every series, sensor and covariate "
     "the residuals saved with it, whatever the pairing of the sensors. A directory with no or several results is refused. Saving "
     "leaves the result in memory as it is, and an opened result can be saved again.",
     ["histories", "configurations"],
     "all results (pairings, covariates, absent statistics or data residuals, additional data), all sequences of saving, opening and "
     "changing, all other files in the directory and listing orders",
     "The repository's test only lists file names; the index arithmetic and the file discovery depend on pairing, names and history.",
     [HIO + "HarmonisationResult.py"],
     [("index of the residuals", HIO + "HarmonisationResult.py open_harmonisation_residual_files"),
      ("names of residual files", HIO + "HarmonisationResult.py write_harmonisation_residual_files"),
      ("discovery", HIO + "HarmonisationResult.py _get_harm_output_path/_get_harm_res_paths")],
     ["HarmonisationResult(path)", "save"],
     "every history of bounded length is executed on real files and compared with a model of disk and memory; files are also read by "
     "an independent reader")

prop("C17", "The solver command runs what it is asked for and writes its result",
     "A command line is refused if and only if it gives both verbosities, a job file together with the options it replaces, or "
     "neither a job file nor all of dataset, sensor and output directory. Otherwise the dataset, sensor data, output directory, "
     "preconditioner and solver state paths, verbosity and whether to compute the covariance are those given by the options or the job "
     "file. A run writes one result with its residuals, equal to the harmonisation of the dataset, into the output directory, which "
     "need not exist, and keeps what is in its log file.",
     ["configurations", "inputs"],
     "all command lines over the documented options and all job files; all complete runs over the options that change what is written",
     "No test runs the command; options interact, and a failure at the end loses a computation of hours.",
     [H + "tools/common.py", H + "tools/full_eiv_solver.py", H + "tools/HarmonisationOp.py", GN + "HarmonisationEIV.py", IO + "MatchUp.py"],
     [("options", H + "tools/common.py parse_cmdline/read_parsed_cmdline"), ("job file", H + "tools/common.py read_job_file"),
      ("run", H + "tools/HarmonisationOp.py run")],
     ["full_eiv_solver"],
     "every command line in the bounds through the real parser and main function, with the operator replaced by a recorder, and complete "
     "runs on small datasets")


T = "tools/"
prop("C18", "Rolling averages are described by the weights of the scanlines they cover",
     "The weighting matrix of a series of match-ups has, in the row of each match-up, the weights of the averaging kernel at the "
     "scanlines from the one nearest to the match-up's time on, so that match-ups share a column if and only if their averages share a "
     "scanline, in whatever order and distance they come. Scanlines that no average uses have no column. Each column has one "
     "uncertainty, the one given for all or the largest given for its scanline.",
     ["inputs"],
     "all orders and spacings of match-ups, scanline times, kernels, weights and forms of the uncertainty",
     "Six tests fix one spacing each at scanlines of a second; sharing depends on order, gaps, jitter and the scanline time.",
     [T + "generate_w_matrices.py", T + "pmh2fiduceo.py"],
     [("columns of the scanlines", T + "generate_w_matrices.py generate_rolling_average_w_matrix"),
      ("copy in the simulation converter", T + "pmh2fiduceo.py generate_rolling_average_w_matrix")],
     ["generate_rolling_average_w_matrix"],
     "every pattern in the bounds against a dense construction from the definition")

prop("C19", "Averages over periods and bins use every sample exactly once",
     "Averaging over hours, days, months or years gives one value per calendar period from that of the first to that of the last "
     "sample, the mean of exactly the samples in it, NaN if there are none. Binning gives for every bin the mean and standard "
     "deviation of exactly the samples between its edges; every sample in the range is in one bin, those at the upper end included.",
     ["inputs"],
     "all samples at, before and after the borders of periods and bins, in any order",
     "The tests use samples inside months; borders, leap days, ends of years and the last edge are where samples get lost.",
     [H + "core/utils/stats.py"],
     [("periods", H + "core/utils/stats.py time_average"), ("bins", H + "core/utils/stats.py bin")],
     ["time_average", "bin"],
     "all combinations of border instants and positions within the bounds against calendar arithmetic")

prop("C20", "The input checker accepts exactly the match-up files that meet the format",
     "The checker of match-up files passes a file if and only if all required variables and attributes are present with the right types "
     "and dimensions, the weighting-matrix variables are complete and consistent with each other, uncertainties have admissible signs and "
     "every covariate has exactly the one form of error correlation that its type states. It reports what is wrong by name and does not "
     "change the file.",
     ["inputs", "fault_sequences"],
     "all match-up files with any faults in any variable, attribute, dimension or value",
     "It has no test; a rule that never fires or fires wrongly is only noticed when the solver fails on a passed file.",
     [T + "harmonisation_input_checker.py"],
     [("rules", T + "harmonisation_input_checker.py check_*"), ("verdict", T + "harmonisation_input_checker.py main")],
     ["harmonisation_input_checker.main", "exit status of the command"],
     "all single faults of the catalogue on 8 files and all pairs on one, against the rules evaluated independently")

prop("C21", "AVHRR match-up files are converted without mixing match-ups or sensors",
     "Converting an AVHRR match-up file keeps exactly the match-ups whose four averages are complete and that are warm enough if a limit is "
     "given, and gives every one its own data, times, names, radiances of its channel and indices in the source. Of each of the six files "
     "written the covariates, effects and weighting matrices are those its name states, each sensor's matrices belong to its own scanlines, "
     "and the file meets the format. Temperatures and radiances convert into each other.",
     ["inputs", "configurations"],
     "all files with any match-ups incomplete or cold, any order of scanlines, channel, pair of sensors and presence of other variables",
     "Two tests check one mask; which match-ups go where, and which matrix belongs to which sensor, depends on the combination.",
     [T + "AVHRR_to_updated_spec.py", T + "convert_bt_to_radiance.py", T + "generate_w_matrices.py", T + "W_matrix_functions.py"],
     [("selection", T + "AVHRR_to_updated_spec.py return_valid_averages_mask/main"),
      ("matrices", T + "AVHRR_to_updated_spec.py return_w_matrices"), ("radiances", T + "convert_bt_to_radiance.py")],
     ["AVHRR_to_updated_spec.main", "convertBT.temp2rad/rad2temp"],
     "real conversions of enumerated source files, all contents of all six results compared with an independent model")

prop("C22", "Microwave match-up files get the weighting matrices of their own scanlines",
     "Converting a directory of microwave match-up files writes for each the same match-ups, unchanged, with the error correlation of its "
     "instruments, weighting matrices made from each sensor's own times and, for each covariate, its own uncertainty; random uncertainties "
     "remain for the covariates that are not averaged only. Results meet the format, and the source files are not changed.",
     ["inputs", "configurations"],
     "all pairs of instruments and all patterns of the scanlines of either sensor",
     "There is no test; matrices of the other sensor or of wrong width look plausible when the sensors' scanlines are alike.",
     [T + "MW_add_W_matrices.py", T + "generate_w_matrices.py", T + "W_matrix_functions.py"],
     [("matrices", T + "MW_add_W_matrices.py return_w_matrix_variables_MW"), ("file", T + "MW_add_W_matrices.py run")],
     ["MW_add_W_matrices.main"],
     "real conversions of enumerated source files, all contents compared with an independent model")

prop("C23", "What is written as a match-up file is read back as the same dataset",
     "A match-up file written from arrays, weighting matrices, uncertainty vectors and additional variables by any of the writers holds exactly "
     "those, and opening it gives the same values, uncertainties, error correlation and matrices for every covariate, however the matrices "
     "are stored in memory and assigned to covariates.",
     ["inputs"],
     "all types of error correlation, numbers, shapes, storage and assignments of matrices, additional variables; four writers",
     "Writers and reader are tested separately with one file; an offset error in concatenated matrices needs several of different size.",
     [T + "W_matrix_functions.py", T + "AVHRR_to_updated_spec.py", T + "pmh2fiduceo.py", IO + "MatchUpWriter.py", IO + "MatchUpReader.py"],
     [("matrix variables", T + "W_matrix_functions.py return_w_matrix_variables/append_W_to_input_file"),
      ("writer", IO + "MatchUpWriter.py write_input_file"), ("reader", IO + "MatchUpReader.py _open_w_matrix/_open_u_matrix")],
     ["write_input_file", "append_W_to_input_file", "MatchUpWriter.write_input_file", "open_matchup"],
     "every case within the bounds is written by the real writer and read by the real reader")

prop("C24", "Simulated datasets in text form are converted to the same match-ups",
     "The converter of simulated datasets writes one match-up file for each pair with that pair's rows, in order, each sensor's values and "
     "uncertainties, the error correlation of every covariate and, for averaged ones, a weighting matrix of the length of the pair; the "
     "true parameters are kept. Incomplete input, or averages that it cannot express, are refused and nothing is written for incomplete input.",
     ["inputs", "configurations"],
     "all pairings, lengths, numbers of covariates and kinds of errors; missing files",
     "There is no test, and the defects found (it could not run at all) show that it was not run.",
     [T + "pmh2fiduceo.py"],
     [("conversion", T + "pmh2fiduceo.py run_conversion"), ("parsing", T + "pmh2fiduceo.py open_data_*")],
     ["pmh2fiduceo command", "run_conversion"],
     "every case within the bounds is converted and all contents are compared with the source")


prop("C25", "Every time stamp becomes the calendar date and time of day it stands for",
     "The date and time that the Fortran demo computes from seconds since 1970-01-01 are those of the proleptic Gregorian calendar, for every "
     "day and every second of the day, before and after 1970 and up to the last instant before midnight. Dates are written as four, two "
     "and two digits.",
     ["inputs"],
     "all days and times of day",
     "The tests convert a few instants; integer overflow and rounding at midnight depend on the instant.",
     [F + "mod_time.F90"], [("conversion", F + "mod_time.F90")], ["mod_time functions"],
     "every day of the range is converted by the real routine at eight instants and compared with an independent calendar")

prop("C26", "The demo's lists hold what was added, in order and within their capacity",
     "Sensors and match-up datasets added to the Fortran demo's lists are found again in the order of addition with everything they were "
     "given; adding to a full list, or accessing an element that does not exist, is refused and changes nothing. A setter changes the "
     "elements it names and nothing else, and clearing a list leaves one that can be filled anew.",
     ["histories"],
     "all histories of additions, removals, settings and queries",
     "The tests run one history; stale state after clearing needs particular sequences of operations.",
     [F + "mod_sensors.F90", F + "mod_matchup.F90"],
     [("sensors", F + "mod_sensors.F90"), ("match-up datasets", F + "mod_matchup.F90")], ["list operations"],
     "all histories up to the bound run on the real modules next to a reference model, all stored state compared after each step",
     technique="explicit exploration of operation histories of the real code against a reference model")

prop("C27", "The demo's matrix lists hold the variances and banded form of every W given",
     "For every sparse weighting matrix given to the Fortran demo, however its rows are stored and indexed and whatever step the match-ups "
     "are thinned by, the list holds the same weights in banded form; numbers of matrices and their order are those of the additions, and "
     "adding more than the capacity is refused.",
     ["inputs", "histories"],
     "all sparse patterns, orders of columns within rows, index bases and sampling steps; all histories of additions and removals",
     "The tests use one matrix; offsets of thinned and concatenated matrices depend on the pattern.",
     [F + "mod_matrices.F90"], [("banded form", F + "mod_matrices.F90")], ["matrix list operations"],
     "all patterns and histories up to the bound run on the real module next to a dense reference model",
     technique="explicit exploration of operation histories of the real code against a reference model")

prop("C28", "The demo reads match-up files completely, for the columns in use, thinned",
     "Reading match-up files with the Fortran demo gives, for every sensor of every file, the values, uncertainties, error structure, "
     "adjustment factors, times and indices of every n-th match-up, for the columns in use only, with matrices of exactly those match-ups. "
     "Optional variables that are absent have their documented defaults, and what was read before is not changed.",
     ["inputs", "configurations"],
     "all error types of all columns, selections of columns, sampling steps and sequences of files",
     "The tests read one file with all columns and no thinning.",
     [F + "mod_reader.F90", F + "mod_matchup.F90", F + "mod_matrices.F90", F + "mod_nc.F90"],
     [("reader", F + "mod_reader.F90")], ["read_matchup_data of the demo"],
     "every case within the bounds is written by an independent writer and read by the real reader; all state compared with a model")

prop("C29", "The demo refuses unusable match-up files, whatever the defect and its place",
     "A match-up file with a value that cannot be used (not a number, infinite, too huge to be squared, or zero or negative where that "
     "makes no sense), or without a required part or with parts of the wrong size, is refused by the Fortran demo wherever it is. Files "
     "without such defects are accepted, up to the largest values allowed.",
     ["inputs", "fault_sequences"],
     "all kinds of unusable values in all cells of all arrays, all absent and misshaped parts",
     "The tests contain no faulty file; a check that looks at the wrong array passes on every good file.",
     [F + "mod_assert.F90", F + "mod_reader.F90"],
     [("tests of values", F + "mod_assert.F90"), ("calls", F + "mod_reader.F90")], ["exit status of the reader", "assertion functions"],
     "each single fault is injected into a good file and given to the real reader")

prop("C30", "The demo's result files hold what they were given, by configured names and units",
     "Parameter and residuals files written by the Fortran demo contain every parameter, uncertainty, covariance, correlation, statistic, "
     "residual, weight, time and text exactly as given, in its place, under the configured (else default) names, with units and "
     "descriptions. A second dataset does not change the first.",
     ["inputs", "configurations"],
     "all sizes, optional parts, names and texts",
     "The test writes one dataset and does not read it back.",
     [F + "mod_writer.F90", F + "mod_nc.F90", F + "mod_config.F90"],
     [("writer", F + "mod_writer.F90")], ["files written"],
     "every case within the bounds is written by the real writer and read back independently")

prop("C31", "The demo takes every setting from the last configuration file that gives it",
     "Every setting of the Fortran demo has the value of the last of preferences, run and job configuration that gives it, and its default "
     "if none does; a setting changes nothing but itself. Shipped job configurations and templates are accepted, faulty configurations are "
     "refused, and result files are named by the job and dataset they belong to.",
     ["configurations"],
     "all combinations of files and of settings in each",
     "The tests use one configuration.",
     [F + "mod_config.F90", "harmonisation_meiv_demo/src/main/resources-filtered/templates/template_job.nml"],
     [("settings", F + "mod_config.F90")], ["settings after initialisation", "names of result files"],
     "all combinations within the bounds are given to the real module, and all settings dumped and compared with a model")

VIS = H + "core/matchup/matchupVis/MatchUpVis.py"
HVIS = TB + "harmonisation/harmonisationVis/HarmonisationVis.py"
PLOTS = H + "core/utils/plots.py"

prop("C32", "Plots show the residuals of the dataset and result, whatever is asked first",
     "Whatever quantities of a plot object are asked for first and however often, its nominal and harmonised measurands, residuals, samples by "
     "series, monthly means and ranges are those of the dataset with its nominal measurands and with the parameters of the result. Every "
     "figure shows, series by series, exactly the data, errors and labels that its title and file name state (missing values left out); means are "
     "over exactly the values of their month or bin. Neither the dataset nor the result is changed, and a quantity that cannot be evaluated is "
     "reported as an error, leaving them as they were.",
     ["histories", "inputs"],
     "all orders of queries and figures, a model failing at each of its calls, all pairings and lengths of series, selections, limits, missing values and names",
     "Nothing of it is tested: values are cached on first use, and a wrong cache shows only after particular sequences of queries.",
     [VIS, HVIS, PLOTS],
     [("cached quantities", HVIS + " get_*"), ("cached quantities and samples", VIS + " get_*"), ("figures", VIS + " plot_*"),
      ("drawing", PLOTS), ("means", "harmonisation_eiv/harmonisation/core/utils/stats.py")], ["values returned by the get methods", "contents of the figures saved"],
     "every case within the bounds runs the real plot object with a stand-in for matplotlib (absent here) that records what is drawn; compared with "
     "a dense model")

prop("C33", "The plot commands draw the result given for the dataset given",
     "harm_plot draws the nominal and harmonised residuals of the dataset of its job, with the result of its output directory, into directories "
     "for plots below it. harm_comp_plot draws for each sensor with parameters the difference between the measurands with the parameters of "
     "the table and of the result, with twice its uncertainty. Nothing else is written or changed, whatever was drawn before and however the "
     "command is quieted or logged.",
     ["histories", "configurations"],
     "all histories of runs, datasets, orders of parameters, options or job files, and other files around",
     "The commands are not tested at all.",
     [H + "tools/HarmonisationPlottingOp.py", H + "tools/HarmonisationCompPlottingOp.py", H + "tools/harm_plot.py", H + "tools/harm_comp_plot.py",
      H + "tools/common.py"],
     [("overview and diagnostics", H + "tools/HarmonisationPlottingOp.py run"), ("comparison", H + "tools/HarmonisationCompPlottingOp.py run")],
     ["figures saved by the commands"],
     "every history within the bounds runs the real commands with a stand-in for matplotlib, and the figures are compared with a dense model",
     )


prop("C34", "The demo does its whole job or nothing, and logs which dataset is at fault",
     "The Fortran demo program reads every dataset of its job once, in order, and writes its result only if all of them are fit for use; "
     "otherwise it fails and leaves the results of former runs as they were. It logs each dataset when it is read, the variable at fault and the "
     "result, line by line with the local date, time and offset, level and module. The log level determines which messages are shown, and "
     "nothing else.",
     ["inputs", "configurations", "fault_sequences"],
     "all jobs, orders of datasets, sampling steps, defects and their places, log levels, time zones and values in messages",
     "The only test of the demo runs one good job at one log level.",
     [F + "demo.F90", F + "mod_logger.F90", F + "mod_reader.F90", F + "mod_assert.F90", F + "mod_time.F90"],
     [("the program", F + "demo.F90 read, write"), ("messages", F + "mod_logger.F90 log_*"), ("time stamps", F + "mod_time.F90 get_iso_date_and_time")],
     ["exit status", "standard output", "files in the working directory"],
     "every job within the bounds runs the real program; its exit status, messages and files are compared with a reference model")


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    built = {n[:-3].upper() for n in os.listdir(os.path.join(here, "mc", "checks")) if n[0] == "c" and n.endswith(".py")}
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for pid, d, _, _ in sorted(P):
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for pid, d, note, technique in sorted(P):
        if pid in built:
            checks.append({"property": pid, "quick_cmd": "bash mc/check %s quick" % pid,
                           "thorough_cmd": "bash mc/check %s thorough" % pid, "evidence_file": "evidence/%s.json" % pid,
                           "technique": technique or ENUM, "level": "model_checking", "level_note": note})
        else:
            na.append({"property": pid, "reason": "the check is not built yet"})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash mc/setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo. Known findings are in known-findings.txt."}, f, indent=1)
        f.write("\n")


main()
