"""Writes /verif/properties.jsonl (kept as a script so that the wording has one source)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(obs), hook_needed=hook)))
AT, PT, SO, GR, KG, ST, HI, GU, EV, EX, UT = ('qtune/autotuner.py', 'qtune/parameter_tuner.py', 'qtune/solver.py',
    'qtune/gradient.py', 'qtune/kalman_gradient.py', 'qtune/storage.py', 'qtune/history.py', 'qtune/gui.py',
    'qtune/evaluator.py', 'qtune/experiment.py', 'qtune/util.py')
SETREAD = ['calls of the experiment (read / set voltages, measure)', 'public properties of the autotuner']

prop('C01', 'Tuning is only reported complete when every parameter is on target',
     'Whenever the autotuner reports that tuning is complete, every parameter group was measured after the last change of any voltage, of the targets, and after the last restart, and every measured (rescaled) parameter with a desired value was closer to it than its tolerance (sensing-dot groups: above its minimum). Conversely a group is only left behind as tuned on such a measurement, and a group whose fresh measurement meets all its targets is accepted.',
     ['histories', 'fault_sequences', 'configurations', 'inputs'],
     'for all hierarchies, plants, noise, failed measurements, instrument faults, manual changes, target changes and resumes from disk',
     'The tests tune two fixed toy configurations once, without failures, restarts or target changes; completeness after an arbitrary event history is never checked.',
     [AT, PT, SO], [('bottom-up walk, index reset after each set', 'Autotuner.iterate'), ('tolerance comparison', 'SubsetTuner.is_tuned / SensingDotTuner.is_tuned')],
     [('current_tuner_index', 'first group not yet known to be tuned', AT)], SETREAD)
prop('C02', 'Groups are tuned strictly bottom-up, one action per iteration',
     'Each iteration of the autotuner performs exactly one of: set the pending voltages, measure one group, or compute the next voltages. After every change of voltages the groups are checked again from the lowest one, a group is only measured once all groups below it have been found tuned, and the first group found not tuned is the one which determines the next voltages. Nothing is measured or set by an iteration which raises because tuning is already complete.',
     ['histories', 'fault_sequences', 'configurations'],
     'for all hierarchies and all sequences of iterations, measurement failures, instrument exceptions, restarts, target changes and resumes',
     'The ordering depends on index, status and pending voltages left by earlier iterations and failures; tests run one fixed fault-free sequence.',
     [AT, PT], [('three-way state machine', 'Autotuner.iterate'), ('reset', 'Autotuner.restart / change_targets')],
     [('current_tuner_status', 'whether the current group has been evaluated', AT), ('voltages_to_set', 'pending voltages', AT)], SETREAD)
prop('C03', 'Only finite voltages of known gates are set; groups move only their gates',
     'The autotuner never sets a voltage which is not a number, never sets a gate which the experiment does not have, and refuses to start if any of its parts names an unknown gate. When a group computes a step from successful measurements, only the gates assigned to this group change with respect to the voltages read back last; all other gates keep their value.',
     ['histories', 'fault_sequences', 'configurations'],
     'for all hierarchies in which groups own different gates and gradients know more gates than the group may move, and for all histories of failures, sliced steps, restarts and resumes',
     'Tests use one gate set for all groups and never interleave groups with different gates after failures or sliced steps.',
     [AT, PT, GR, SO], [('naming check', 'Autotuner.ready_to_tune'), ('NaN check', 'Autotuner.iterate'), ('merge of the solver suggestion', 'SubsetTuner.get_next_voltages')],
     [], SETREAD)
prop('C04', 'Steps never exceed the maximal step size and are measured often enough',
     'A group with a maximal step size never requests a single voltage change (other than the back-off after a failed measurement) whose Euclidean length exceeds it, and requests the full step if it is short enough. On the way to a far target it makes at most the configured maximal number of steps before it measures its parameters again, and a step which reaches the computed target is always measured. A restart or resume in the middle of such a walk neither enlarges a step nor the number of unmeasured steps.',
     ['histories', 'fault_sequences', 'configurations', 'crash_points'],
     'for all step limits, slice counts, distances, failures, restarts and resumes during a sliced step',
     'One test checks a single sliced step from fixed numbers; the counter carries over iterations, groups, failures and resumes.',
     [PT], [('slicing', 'SubsetTuner.get_next_voltages'), ('skipping of measurements', 'SubsetTuner.is_tuned')],
     [('number_queued_steps', 'slices which are still to be made without measurement', PT)], SETREAD)
prop('C05', 'A failed measurement leads back towards the last good point and is never used',
     'If a measurement of a group yields an undefined value of a parameter it tunes and a good point is known, the next voltages are the midpoint between the failed voltages and the voltages of the last good measurement of this group (sensing dot: last tuned voltages), again and again until a measurement succeeds. The failed measurement changes neither the group\'s gradient estimate, nor its covariance, nor the values and position from which later steps are computed, and does not count as tuned.',
     ['fault_sequences', 'histories'],
     'for all positions of one or many consecutive failed measurements in all tuning histories, all groups, with restarts and resumes in between',
     'The only recovery test fails one measurement of one hand-made tuner; sequences of failures inside real histories are not tested.',
     [PT, GR, SO], [('failure detection', 'SubsetTuner.is_tuned / SensingDotTuner.is_tuned'), ('midpoint', 'get_next_voltages')],
     [('evaluatable_voltages', 'points where the evaluation worked', PT), ('last_evaluation_failed', 'failure flag', PT)], SETREAD)
prop('C06', 'An instrument error aborts one iteration and nothing else',
     'If reading or setting voltages or a measurement raises an exception, the exception reaches the caller of the iteration, and simply calling the iteration again continues the tuning as if the error had not happened: the same voltages are set, the same gradients, records and completion result, only the interrupted measurements are repeated.',
     ['fault_sequences', 'histories', 'configurations'],
     'for every instrument call of every tuning history at which an exception is raised before or after the call has taken effect, any number of times',
     'No test raises an exception from the experiment.',
     [AT, PT, EV, SO], [('state is only changed after the measurement succeeded', 'Autotuner.iterate, is_tuned')],
     [], SETREAD + ['final state compared to the fault-free twin'])
prop('C07', 'After a manual change and restart, no stale position or measurement is used',
     'After the voltages were changed manually and the autotuner was restarted at any moment, pending voltages and unfinished walks are dropped, all groups are measured again from the lowest one, and every group, optimiser and gradient estimate works with the real voltages. The difference of measured values across the manual jump is not used as gradient information, while the gradients learned before are kept.',
     ['histories', 'fault_sequences', 'schedules'],
     'for all moments of a restart (every phase of the iteration, mid-walk, after failures, while finite differences are collected) and all manual changes of some or all gates',
     'No test restarts a tuner in the middle of a tuning.',
     [AT, PT, SO, GR], [('restart cascade', 'Autotuner.restart -> ParameterTuner.restart -> Solver.restart -> GradientEstimator.restart')],
     [('last voltages / current positions', 'positions kept by tuner, solver and estimator', PT)], SETREAD)
prop('C08', 'New targets take effect everywhere at once and nothing else is forgotten',
     'After the targets were changed at any moment, pending voltages are dropped, every group is measured again from the lowest one, and completion as well as the steps are decided with the new values. Target entries which were not given keep their value, and the gradients learned so far are kept.',
     ['histories', 'fault_sequences'],
     'for all moments and all partial target changes (some groups, some categories, some parameters), including changes of a complete tuning and after resumes',
     'Tests change a target only once between two complete tunings.',
     [AT, SO], [('change_targets', 'Autotuner.change_targets'), ('merge', 'Solver.target setter')], [('target', 'desired values and tolerances', SO)], SETREAD)
prop('C09', 'Measurements are attributed to the voltages read back; records never change',
     'Measured values are always attributed to the voltages which the experiment reports at that time, not to the requested ones, in the optimisers, gradients and records of good and tuned points. A point once recorded (good point, tuned point, saved state) never changes afterwards, and the list of tuned points contains exactly the voltages at which a group was found tuned, in that order.',
     ['histories', 'configurations', 'fault_sequences'],
     'for all experiments which round or clip voltages, or drift, and all histories with restarts, failures and resumes',
     'Test experiments set exactly what is requested and the records of earlier iterations are not looked at again.',
     [AT, PT, SO, GR], [('read back before evaluation', 'Autotuner.iterate'), ('append to records', 'is_tuned')],
     [('tuned_voltages', 'record of tuned points', PT), ('evaluatable_voltages', 'record of good points', PT)], SETREAD + ['saved files'])
prop('C10', 'Sensing dots are measured expensively only if needed, then moved to the optimum',
     'A sensing-dot group always makes its cheap measurement; the expensive measurement is made exactly if the group is not tuned by the cheap one and some cheaply measured parameter is not above its cost threshold. If every parameter is above its minimum the group is tuned and keeps its voltages, otherwise the next voltages are the optimal positions found by the last measurement made, with all other gates unchanged.',
     ['histories', 'fault_sequences', 'configurations', 'inputs'],
     'for all sequences of signals around minimum and cost threshold, rescaling factors, failed measurements, instrument errors, restarts and resumes',
     'The sensing-dot tests use a single mocked sequence of values.',
     [PT, SO], [('policy', 'SensingDotTuner.is_tuned'), ('renaming values to gates', 'ForwardingSolver.update_after_step')],
     [('cheap_evaluation_only', 'whether the last evaluation was cheap only', PT)], SETREAD)
prop('C11', 'A measurement leaves the gate voltages as it found them, even if it fails',
     'After an evaluation has returned or raised, all gate voltages have the values they had before it, no matter at which of its instrument calls an exception occurred, provided that the experiment accepts the restoring call. An evaluation which must shift gates measures only at the shifted position.',
     ['fault_sequences', 'inputs', 'configurations'],
     'for all instrument calls of an evaluation at which an exception is raised, before or after taking effect, and all gate voltages',
     'No test raises an exception during an evaluation or compares the voltages before and after.',
     [EV], [('restore', 'LeadTransition.evaluate')], [], ['calls of the experiment'])
prop('C12', 'The optimisation step solves the linearised problem, leaving the rest invariant',
     'If no gradient needs refinement, the step requested after any history is the shortest one which, according to the current gradient estimates, moves all parameters of the group as close as possible (least squares) to their desired values, starting from the position and values measured last. Parameters without desired value are treated as to be left unchanged.',
     ['histories', 'fault_sequences', 'configurations'],
     'for all gradients, targets, rescaling factors, gate subsets and histories of failures, retargetings, restarts and resumes after which the step is computed',
     'Tests compute the step for one fixed matrix; which position, values, gradients and targets enter after failures, restarts and resumes is untested.',
     [SO, PT], [('lstsq', 'NewtonSolver.suggest_next_position'), ('bookkeeping', 'NewtonSolver.update_after_step')],
     [('current values / position', 'last measured point', SO)], SETREAD + ['public gradient estimates'])
prop('C13', 'The tracked gradient is the Bayesian posterior of the measured differences',
     'After any history the Kalman-tracked gradient and covariance of a parameter equal the Bayesian posterior for its prior, fading factor and exactly the differences between consecutive successful measurements of this parameter with their reported variances, each counted once. An extra exploratory step is requested whenever the uncertainty exceeds its threshold in all directions the group may move and never if it does in none of them; it has the configured length (cut to the maximal step) and is along an allowed direction whose uncertainty exceeds the threshold, the most uncertain one if the group may move freely. Exploratory steps keep lower, already tuned gradient-tuned parameters unchanged to first order.',
     ['histories', 'fault_sequences', 'configurations'],
     'for all measurement histories with noise, failures, repeated points, restarts, resumes and retargetings',
     'Tests feed the filter by hand and compare with a fixed gradient; which differences reach it during a tuning with failures, restarts and reloads is untested.',
     [GR, KG, SO], [('filter', 'KalmanGradient.update'), ('bookkeeping of position and value', 'KalmanGradientEstimator.update'), ('excitation', 'KalmanGradientEstimator.require_measurement')],
     [('gradient, covariance', 'filter state', KG)], ['public estimate and covariance', 'calls of the experiment'])
prop('C14', 'Finite differences yield the exact gradient of an affine response',
     'A finite-difference gradient estimate is completed after exactly the necessary number of further measurements at independent points around the base point, and equals the true gradient if the response is affine and noise free, with the covariance propagated from the reported variances; a self-initialising estimator continues as Kalman filter from exactly this gradient and covariance. This also holds if the collection is interrupted by failed measurements, restarts or resumes.',
     ['histories', 'fault_sequences', 'configurations'],
     'for all dimensions, step sizes, one-sided and symmetric differences, affine responses and interruptions during the collection',
     'Tests call the estimator by hand with fixed values (one of them fails even on the base tree), never with interruptions.',
     [GR, UT], [('requests', 'FiniteDifferencesGradientEstimator.require_measurement'), ('evaluation', 'calculate_gradient_non_orthogonal'), ('hand-over', 'SelfInitializingKalmanEstimator.update')],
     [('stored_measurements', 'points collected so far', GR)], ['public estimate and covariance', 'calls of the experiment'])
prop('C15', 'Tuning a well-behaved device completes once faults stop',
     'If the parameters respond (nearly) linearly to the gates, the noise is small compared with the tolerances and a reachable target exists, then after any finite sequence of measurement failures, instrument exceptions, manual changes, retargetings and resumes from disk, the tuning completes within a bounded number of further iterations once these stop.',
     ['fault_sequences', 'histories', 'configurations'],
     'for all such devices, hierarchies, estimators, step limits and finite fault sequences',
     'Tests show progress for two fixed devices without faults.',
     [AT, PT, SO, GR], [('whole tuning loop', 'Autotuner.iterate')], [], SETREAD)
prop('C16', 'Every save is a snapshot of the moment it was requested',
     'The state which a save stores is exactly the state of the autotuner when the save was requested, however long the background writer is delayed and whatever iterations, measurements, restarts or target changes happen until and while it is written, in thread and in process mode.',
     ['schedules', 'histories'],
     'for all interleavings of tuning thread and storage worker, at the granularity of source lines',
     'Whether the writer sees later changes depends on scheduling; the tests always wait or do not look.',
     [ST, AT], [('deep copy before queueing', 'AsynchronousHDF5Writer.write')], [('queue', 'pending saves', ST)], ['saved files'])
prop('C17', 'A saved tuning resumes exactly where it was',
     'Reloading the file written by any iteration and continuing with the same experiment gives exactly the same voltages, measurements, gradients, records and result as the tuning that was never interrupted. The reloaded state equals the saved one in all values, types of objects and settings, objects that were shared are shared again and objects that were not are not, and the live experiment takes the place of the stored one.',
     ['histories', 'crash_points', 'configurations'],
     'for all hierarchies, estimators, evaluators and iterations after which the process dies, repeatedly',
     'Tests round-trip a few hand-made objects (and were never able to with current h5py); no resume after arbitrary iterations is compared with an uninterrupted run.',
     [ST, AT, PT, SO, GR, EV, KG], [('type-tagged tree with references', '_to_hdf5 / _from_hdf5'), ('constructor arguments', 'to_hdf5 of every class')],
     [], ['saved files', 'load function', 'continued run'])
prop('C18', 'A crash or I/O error never damages earlier saves nor fakes a complete one',
     'If the process dies at any instant while states are being written, or a write fails, every file which had been written completely still loads to exactly the state that was saved. A file which was written incompletely either is rejected when it is loaded or yields exactly the complete state, never a partial or mixed one.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'for every prefix of the write calls made to the storage files (including torn last write) and every storage call that fails with an I/O error',
     'No test interrupts a write.',
     [ST, AT], [('one new file per save, opened once', 'Autotuner.save_current_status, to_hdf5'), ('reload', '_from_hdf5')], [], ['saved files'])
prop('C19', 'The storage worker writes everything in order and never hangs or hides errors',
     'Every save accepted by the background writer is written exactly once and in order, and joining or restarting the writer (also repeatedly, and at interpreter exit without an explicit join) returns only after that, in thread and process mode. If the worker dies because a write failed, the error is logged, later saves are refused with an exception, and joining still returns.',
     ['schedules', 'fault_sequences', 'histories'],
     'for all interleavings of callers and worker, all positions of a failing write, and all sequences of write, join, restart and exit',
     'Tests write one object and join; neither failures nor interleavings are explored.',
     [ST], [('queue with end marker', '_writer_target / AsynchronousHDF5Writer.join'), ('atexit', 'AsynchronousHDF5Writer.__init__')],
     [('queue', 'pending saves', ST), ('worker', 'thread or process', ST)], ['files', 'log', 'exceptions', 'termination'])
prop('C20', 'Each iteration saves one new file whose name sorts in time order',
     'With a storage path, every completed iteration requests exactly one new file that no earlier save used, the names sort in the order of the saves, and the last-save record names that file, even if the wall clock is set back or jumps, the directory vanishes, or a tuning is resumed. Without a storage path nothing is written.',
     ['histories', 'fault_sequences', 'schedules'],
     'for all clock jumps, directory removals, resumes and iteration sequences of one process',
     'No test looks at more than one file name, none changes the clock.',
     [AT, UT], [('time stamp from the monotonic counter', 'util.high_res_datetime / time_string'), ('path', 'Autotuner.save_current_status')], [('last_save_file', 'path of the last save', AT)], ['file names'])
prop('C21', 'The history rebuilt from disk equals the live one and reports what was measured',
     'A history that was fed live after every iteration and the history rebuilt from the stored files contain the same rows, values and reload paths. Each row holds the voltages of one stay at a position and, for each group measured there, the parameter values and variances of its last measurement and its gradients after it; every reload path leads to the state of that row.',
     ['histories', 'fault_sequences', 'configurations'],
     'for all tuning histories with failures, several groups, retargetings and interrupted or repeated feeding, files listed in any order',
     'Tests only load an empty or tiny history and check that plotting does not raise.',
     [HI, AT], [('row logic', 'History.append_autotuner'), ('rebuild', 'History.load_directory')], [('data frame', 'one row per voltage position', HI)], ['public getters of the history'])
prop('C22', 'Parallel loading keeps the order and reports errors',
     'Loading many files in parallel yields every file exactly once and in the order given, with the same content as loading them one by one, for any number of workers and any interleaving. If a file cannot be read the error reaches the caller at its position and shutting down the reader does not hang.',
     ['schedules', 'fault_sequences', 'inputs'],
     'for all worker counts, interleavings and positions of damaged or missing files',
     'The single reader test uses two files without any scheduling variation or errors.',
     [ST], [('ordered executor map', 'ParallelHDF5Reader.read_iter')], [], ['results of the reader'])
prop('C23', 'The run control of the GUI runs, steps, pauses and stops as told',
     'One press of step while idle leads to exactly one iteration; continuous running goes on until tuning completes, an error occurs or it is paused, and then stops by itself, with the error logged; after a pause at most the iteration which was already begun is finished. Each iteration is entered into the history exactly once, iterations never overlap, closing always ends the worker, and restarting it works at any time.',
     ['schedules', 'fault_sequences', 'histories'],
     'for all interleavings of user actions with the worker thread at source-line granularity, errors in any iteration and tuning completion at any time',
     'The GUI has no tests.',
     [GU], [('worker loop with flags', 'GUI._work'), ('user actions', 'GUI.start / step / pause / close')], [('continuous, stepped, stop', 'flags shared by two threads', GU)], ['iterations made', 'history', 'button states', 'log'])
prop('C24', 'Averaged measurements use all good repetitions and only these',
     'An averaging evaluation makes exactly the configured number of repetitions and returns for each parameter the mean and the variance of the mean of the repetitions that yielded a value, whichever repetitions fail; it yields an undefined value only if all failed. Evaluations by fitting report data which cannot be fitted (undefined, infinite or constant data, no convergence) as undefined value instead of an error or an arbitrary number.',
     ['fault_sequences', 'inputs'],
     'for all patterns of failing repetitions and parameters, and scans with signal, without signal, or with noise',
     'No test fails a repetition or supplies a scan without signal.',
     [EV], [('nan statistics', 'AveragingEvaluator.evaluate'), ('fit error handling', 'InterDotTCByLineScan.evaluate / NewLoadTime.evaluate')], [], ['evaluation result'])
prop('C25', 'Numerical helpers are exact (gradients from points, orthogonal vectors, filters)',
     'The gradient computed from any valid set of points of an affine function is its gradient, orthogonal vectors are orthogonal and normalised, and the smoothing and difference filters return the defined averages and differences.',
     ['inputs'], 'for all valid inputs',
     'Tests use a few fixed inputs.', [UT], [('helpers', 'calculate_gradient_non_orthogonal, get_orthogonal_vector, moving_average_filter, nth_diff')], [], ['return values'])
prop('C26', 'The MATLAB experiments set, read and measure exactly what was asked',
     'A set request changes exactly the given gates to the given voltages and leaves all others, and returns the voltages that are set; reading returns the present voltages. Each measurement runs the scan it names, with the settings stored for it unchanged and a new file name, and returns its data. An error in MATLAB reaches the caller, changes no setting, and the same connection keeps working; connecting again to a session that is still connected reuses it.',
     ['fault_sequences', 'inputs', 'histories'], 'for all sequences of set, read and measure requests with MATLAB errors before or after they take effect, and all states of the session (connected, shared, path set or not)',
     'There are no tests of these modules because MATLAB is required; they could not even be imported.', ['qtune/sm.py', 'qtune/sm_tune_qqd.py', 'qtune/mat2py.py'],
     [('conversion', 'mat2py.to_matlab, mat2py.matlab_struct_to_python'), ('connection', 'SpecialMeasureMatlab'), ('gate voltages', 'SMTuneQQD.set_gate_voltages / read_gate_voltages'), ('measure', 'SMTuneQQD.measure')],
     [('file counter and stored scan settings', 'kept by the experiment', 'qtune/sm_tune_qqd.py')], ['MATLAB calls'])
prop('C27', 'The QQD evaluators report what MATLAB analysed, within their limits',
     'Each evaluator of the quadruple dot makes its measurement with the settings stored in it and returns for each of its parameters, in order, the value which MATLAB analysed from this very measurement (line: mean of the widths and variance of this mean; lead: fitted time, error scaled by the residuals; sensors: position and absolute slope; charge and response: positions; triple points: distance), undefined if outside of its configured limits (none by default), and remembers the data file. An error in MATLAB reaches the caller and leaves the evaluator as it was; afterwards, and after storing and loading, evaluations and tunings with these evaluators continue as without it.',
     ['fault_sequences', 'inputs', 'histories'], 'for all analysis results, limits and settings, all sequences of evaluations and tuning iterations with MATLAB errors at any call, and reloads in between',
     'There are no tests of these evaluators because MATLAB is required.', ['qtune/sm_tune_qqd.py', 'qtune/mat2py.py'],
     [('evaluators', 'QQDLine, QQDLead, QQDSensor1D, QQDSensor2D, QQDCharge, QQDDistTP, QQDResp, SMQQDPassThru'), ('measurement and file name', 'SMTuneQQD.measure / get_last_file_name'), ('matlab results', 'mat2py.matlab_struct_to_python')],
     [('settings and the last data file', 'kept by the evaluator and the experiment', 'qtune/sm_tune_qqd.py')], ['evaluation results', 'MATLAB calls', 'recorded values of a tuning'])
prop('C28', 'Going back in the reload window restores what was recorded',
     'Reload Voltages sets exactly the voltages recorded in the row shown in the window and restarts the tuning in use there; Reload Entire State makes the GUI continue with the stored state of this row, restarted at the present voltages, and changes no voltage. The window shows the row that is used, limited to existing rows. Instrument errors and files which are damaged or not yet written are reported and leave the tuning in use as it was; pressing again works. All reload windows act on the tuning in use, and none of them changes voltages or tuning in the middle of an iteration.',
     ['histories', 'fault_sequences', 'schedules'], 'for all tuning histories, sequences of reloads in any number of windows, errors while reloading, and presses at any moment of a running tuning',
     'The GUI has no tests.',
     [GU, HI, AT], [('reload buttons', 'ReloadWidget.reload_voltages / reload_autotuner'), ('exchange of the tuning', 'GUI.load_auto_tuner_from_reload_widget'), ('rows', 'History.get_gate_values / get_reload_path')],
     [('tuning in use', 'GUI and every reload window', GU), ('row number', 'ReloadWidget', GU)], ['voltages', 'saved state of the tuning in use', 'shown number', 'log'])
prop('C29', 'Plots and plot windows show what was recorded',
     'The plots of the history (plot_tuning) and the parameter, gradient, evaluator and plot windows of the GUI can be opened and closed at any time once an iteration was recorded and then show, after every further iteration, exactly the recorded values: each curve holds the value of every row under the name of its gate, parameter or gradient, rows without value are gaps, error bars have the recorded width and are shown where asked for; each parameter and gradient has its own plot, whether it is described in parameter_information or not, whether one or many, known or not yet known. Only the selected curves are in the plot window. The evaluator window shows the raw data of the row and evaluator it names and limits the number to existing rows; figures of several evaluators and rows show exactly their raw data, in order.',
     ['histories', 'fault_sequences', 'inputs'], 'for all tuning histories with failing measurements and errors, and all sequences of opening, closing, selecting and plotting in between',
     'Tests only check that plotting one history does not raise; the windows have no tests.',
     [HI, GU], [('plots of the history', 'History.plot_tuning / plot_parameters / plot_gradients'), ('windows', 'ParameterWidget, GradientWidget, PlotOrganizer, EvaluatorWidget'), ('raw data', 'History.plot_single_evaluator_data')],
     [('recorded rows', 'History', HI), ('curves and error bars', 'PlotOrganizer', GU)], ['data of curves and error bars', 'titles, labels and legends', 'raw data given to the drawing function', 'log'])
with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
